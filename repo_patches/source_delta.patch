From ef5ef4c04f3740ce8d6dcda16d96899361d09ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 001/132] fix: loading an empty container must empty the
 destination

---
 typelib/value_ops.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 104f4cb..c29bd3c 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -172,7 +172,11 @@ boost::tuple<size_t, MemoryLayout::const_iterator> ValueOps::load(
                 boost::uint64_t element_count;
                 stream.read(reinterpret_cast< boost::uint8_t* >(&element_count), sizeof( boost::uint64_t ));
                 if (element_count == 0)
+                {
+                    if (type->getElementCount(container_ptr) != 0)
+                        type->clear(container_ptr);
                     it = MemoryLayout::skipBlock(++it, end);
+                }
                 else
                 {
                     it = type->load(container_ptr, element_count, stream, ++it, end);
-- 
2.43.0


From 8af478d5b02c5d836e9440ab54e71bf350797ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 002/132] fix: refuse vector sizes whose byte count does not
 fit in memory

---
 lang/csupport/containers.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b537173..3350a60 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -4,8 +4,10 @@
 #include <typelib/value_ops.hh>
 #include <typelib/value_ops_details.hh>
 #include <boost/tuple/tuple.hpp>
+#include <boost/lexical_cast.hpp>
 #include <string.h>
 #include <limits>
+#include <stdexcept>
 
 #include <iostream>
 
@@ -97,6 +99,9 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
 
     size_t old_raw_size   = ptr->size();
     size_t old_size       = getElementCount(ptr);
+    if (new_size > ptr->max_size() / element_size)
+        throw std::length_error("cannot resize a vector of " + element_t.getName() + " to "
+                + boost::lexical_cast<std::string>(new_size) + " elements");
     size_t new_raw_size   = new_size * element_size;
 
     if (!hasElementLayout())
-- 
2.43.0


From c64945c9dbd261839dfc3fc0bd4244c1af84b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 003/132] fix: apply the pointer and opaque acceptance flags
 inside arrays and containers

---
 typelib/memory_layout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index e8272f2..fdc350f 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -571,7 +571,7 @@ bool MemLayout::Visitor::visit_ (Enum    const& type)
 bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor array_visitor(subops);
+    MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
@@ -579,7 +579,7 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
 bool MemLayout::Visitor::visit_ (Container const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor container_visitor(subops);
+    MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
-- 
2.43.0


From dab8315444b91c3aeb7656cc188e2bb1f3e0517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 004/132] fix: layouts of arrays without content (no elements,
 or elements of size zero)

---
 typelib/memory_layout.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index fdc350f..7d6b643 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -56,6 +56,9 @@ void MemoryLayout::pushArray(Array const& type, MemoryLayout const& array_ops)
 
 void MemoryLayout::pushArray(size_t dimension, MemoryLayout const& array_ops)
 {
+    if (dimension == 0)
+        return;
+
     ops.push_back(FLAG_ARRAY);
     ops.push_back(dimension);
     ops.insert(ops.end(), array_ops.begin(), array_ops.end());
@@ -194,7 +197,7 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.init_ops.resize(content_i - 4);
+                simplified.init_ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
@@ -312,7 +315,7 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.ops.resize(content_i - 4);
+                simplified.ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
-- 
2.43.0


From 619ed32634aa90ea29886b31bebcd337ffbeb6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 005/132] fix: keep the trailing skips of a layout when asked
 not to remove them

---
 typelib/memory_layout.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 7d6b643..cc31f9f 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -362,7 +362,9 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
 
     if (current_op_count)
     {
-        if (!remove_trailing_skips || current_op != FLAG_SKIP || depth > 0)
+        if (!remove_trailing_skips)
+            simplified.pushGenericOp(current_op, current_op_count);
+        else if (current_op != FLAG_SKIP || depth > 0)
             simplified.pushGenericOp(current_op, current_op_count - current_skip_count);
     }
 
-- 
2.43.0


From 866665df310f73f5473640022865d96679bc73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 006/132] fix: marshal vector elements following the given
 layout, padding apart included

---
 lang/csupport/containers.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 3350a60..78cc90b 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -302,6 +302,17 @@ void Vector::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
     }
 }
 
+/** Tells whether the layout of the elements, as given to Vector::dump and
+ * Vector::load, is one single copy of the whole element */
+static bool isWholeElementMemcpy(Container::MarshalOps::const_iterator begin,
+        Container::MarshalOps::const_iterator end, size_t element_size)
+{
+    return (end - begin) > 2
+        && begin[0] == MemLayout::FLAG_MEMCPY
+        && begin[1] == element_size
+        && begin[2] == MemLayout::FLAG_END;
+}
+
 Container::MarshalOps::const_iterator Vector::dump(
         void const* container_ptr, size_t element_count, OutputStream& stream,
         MarshalOps::const_iterator const begin, MarshalOps::const_iterator const end) const
@@ -310,7 +321,7 @@ Container::MarshalOps::const_iterator Vector::dump(
         reinterpret_cast< std::vector<uint8_t> const* >(container_ptr);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isWholeElementMemcpy(begin, end, getIndirection().getSize()))
     {
         // optimize a bit: do a huge memcpy if possible
         size_t size       = *(++it) * element_count;
@@ -344,7 +355,7 @@ Container::MarshalOps::const_iterator Vector::load(
     resize(vector_ptr, element_count);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isWholeElementMemcpy(begin, end, element_size))
     {
         size_t size       = *(++it) * element_count;
         stream.read(&(*vector_ptr)[0], size);
-- 
2.43.0


From 3a1bc7272b238457feb94e0511c7204bc4d1ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 007/132] fix: accept the names of pointers to containers and
 arrays, and arrays as template arguments

---
 typelib/typename.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index b4a8bc6..a74a675 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -124,6 +124,10 @@ namespace Typelib
                         return make_pair(false, i);
                 }
 
+                // A template can be pointed to
+                while (i + 1 < s.length() && s[i + 1] == '*')
+                    i++;
+
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
@@ -151,12 +155,16 @@ namespace Typelib
                 if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
                     return make_pair(false, start_pos);
 
+                // An array can be pointed to
+                while (i + 1 < s.length() && s[i + 1] == '*')
+                    i++;
+
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
                     if (s[i + 1] == '/')
                         i++;
-                    else if (s[i + 1] != '>' && s[i + 1] != '[')
+                    else if (s[i + 1] != '>' && s[i + 1] != '[' && s[i + 1] != ',')
                         return make_pair(false, i + 1);
                 }
             }
-- 
2.43.0


From 894ba10691c1c0bfa14b119b6ed1bdbdb4e808db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 008/132] fix: allow to push one of a vector's own elements

---
 lang/csupport/containers.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 78cc90b..c35262a 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -154,8 +154,16 @@ void Vector::push(void* ptr, Value v) const
     std::vector<uint8_t>* vector_ptr =
         reinterpret_cast< std::vector<uint8_t>* >(ptr);
 
+    // Resizing moves the elements, and the pushed value might be one of them
+    uint8_t* data = reinterpret_cast<uint8_t*>(v.getData());
+    bool own_element = !vector_ptr->empty() &&
+        data >= &vector_ptr->front() && data <= &vector_ptr->back();
+    size_t own_offset = own_element ? data - &vector_ptr->front() : 0;
+
     size_t size = getElementCount(ptr);
     resize(vector_ptr, size + 1);
+    if (own_element)
+        v = Value(&(*vector_ptr)[own_offset], v.getType());
     Typelib::copy(
             Value(&(*vector_ptr)[size * getIndirection().getSize()], getIndirection()),
             v);
-- 
2.43.0


From d67898b5e5792fdbda23ca11f24c7c9e917fefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 009/132] fix: allow to destroy and clear empty vectors of
 elements that have no layout

---
 lang/csupport/containers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index c35262a..6022a87 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -104,6 +104,9 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
                 + boost::lexical_cast<std::string>(new_size) + " elements");
     size_t new_raw_size   = new_size * element_size;
 
+    if (old_size == new_size)
+        return;
+
     if (!hasElementLayout())
         throw std::runtime_error("could not compute layout for element type " + element_t.getName() + ", cannot copy");
 
-- 
2.43.0


From 661dde219e79655f428ed67cc9aa7163bbdff253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 010/132] fix: CSV lines have a column for every opaque value,
 as their header does

---
 typelib/csvoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index d7b4f45..4929288 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -95,7 +95,7 @@ namespace
             return true;
         }
         using ValueVisitor::visit_;
-        bool visit_ (Value value, OpaqueType const& type)
+        bool visit_ (Value const& value, OpaqueType const& type)
         {
             display("<" + type.getName() + ">");
             return true;
-- 
2.43.0


From 83f55de4e9ce3a994aa62a4b437fd10d40720151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 011/132] fix: declare to_network before from_network, which
 could not be used

---
 typelib/endian_swap.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/typelib/endian_swap.hh b/typelib/endian_swap.hh
index 8a9f5ce..e14956d 100644
--- a/typelib/endian_swap.hh
+++ b/typelib/endian_swap.hh
@@ -87,6 +87,15 @@ namespace Typelib
 #       error "unknown endianness, neither BOOST_ENDIAN_LITTLE_BYTE nor BOOST_ENDIAN_BIG_BYTE are defined"
 #endif
 
+        /** Converts \c source, which is in native byte order, into network byte
+         * order and saves the result into \c dest */
+        template<typename S>
+        inline void to_network(const S source, S& dest) { return to_big(source, dest); }
+        /** Converts \c source, which is in native byte order, into network byte
+         * order and returns the result */
+        template<typename S>
+        inline S to_network(const S source) { return to_big(source); }
+
         /** Converts \c source, which is in network byte order, into native byte order and
          * saves the result into \c dest */
         template<typename S>
@@ -111,11 +120,6 @@ namespace Typelib
          * returns the result */
         template<typename S>
         inline S from_big(const S source) { return to_big(source); }
-
-        template<typename S>
-        inline void to_network(const S source, S& dest) { return to_big(source, dest); }
-        template<typename S>
-        inline S to_network(const S source) { return to_big(source); }
     }
 }
 
-- 
2.43.0


From 55e952d411da0cf7653563da65da5879e404c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 012/132] fix: compiled endian swap skips the end of compounds
 and arrays without content

---
 typelib/endianness.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 2f148f1..c9850f3 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -62,6 +62,10 @@ namespace Typelib {
     { throw UnsupportedEndianSwap("pointers"); }
     bool CompileEndianSwapVisitor::visit_ (Array const& type)
     {
+        // There is nothing to convert in an array that has no content
+        if (type.getSize() == 0)
+            return true;
+
         if (type.getIndirection().getCategory() == Type::Array)
         {
             size_t current_size = m_compiled.size();
@@ -114,6 +118,13 @@ namespace Typelib {
             dispatch(it->getType());
             m_output_index = new_index + it->getType().getSize();
         }
+
+        // The bytes at the end of the compound have to be skipped as well, in
+        // case something follows it
+        size_t end_index = base_index + type.getSize();
+        if (end_index > m_output_index)
+            skip(end_index - m_output_index);
+        m_output_index = end_index;
         return true;
     }
 
-- 
2.43.0


From 6ed39296d05ef8f0b163d308006f7e7d639ba50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 013/132] fix: refuse the layout of containers that contain
 themselves instead of recursing without end

---
 typelib/memory_layout.cc | 19 ++++++++++++++++---
 typelib/memory_layout.hh |  6 ++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index cc31f9f..fe9fb55 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -576,15 +576,23 @@ bool MemLayout::Visitor::visit_ (Enum    const& type)
 bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
+    MemLayout::Visitor array_visitor(subops, *this, NULL);
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
 }
 bool MemLayout::Visitor::visit_ (Container const& type)
 {
+    // The layout of the elements is part of the layout of the container. It
+    // would have no end if the elements contained the container itself
+    for (MemLayout::Visitor const* v = this; v; v = v->parent)
+    {
+        if (v->container == &type)
+            throw NoLayout(type, "contains itself");
+    }
+
     MemoryLayout subops;
-    MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
+    MemLayout::Visitor container_visitor(subops, *this, &type);
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
@@ -627,5 +635,10 @@ bool MemLayout::Visitor::visit_ (OpaqueType const& type)
 }
 
 MemLayout::Visitor::Visitor(MemoryLayout& ops, bool accept_pointers, bool accept_opaques)
-    : ops(ops), accept_pointers(accept_pointers), accept_opaques(accept_opaques) {}
+    : ops(ops), accept_pointers(accept_pointers), accept_opaques(accept_opaques)
+    , parent(NULL), container(NULL) {}
+
+MemLayout::Visitor::Visitor(MemoryLayout& ops, Visitor const& parent, Container const* container)
+    : ops(ops), accept_pointers(parent.accept_pointers), accept_opaques(parent.accept_opaques)
+    , parent(&parent), container(container) {}
 
diff --git a/typelib/memory_layout.hh b/typelib/memory_layout.hh
index e5f733f..a669df1 100644
--- a/typelib/memory_layout.hh
+++ b/typelib/memory_layout.hh
@@ -138,6 +138,12 @@ namespace Typelib
             bool   accept_pointers;
             bool   accept_opaques;
 
+            // The visitor whose element type is being visited, if any, and the
+            // container it has been created for
+            Visitor const* parent;
+            Container const* container;
+            Visitor(MemoryLayout& ops, Visitor const& parent, Container const* container);
+
         protected:
             bool visit_ (Numeric const& type);
             bool visit_ (Enum    const& type);
-- 
2.43.0


From 6eed230ec0065482925e7bca4bb4924f20e8668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 014/132] fix: type equality is symmetric when a type has
 several equals, and for null types

---
 typelib/typemodel.cc | 21 ++++++++++-----------
 typelib/typemodel.hh | 14 ++++++++------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index bfe0c67..a29f8d8 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -78,18 +78,17 @@ namespace Typelib
         if (&left == &right)
             return true;
 
-        RecursionStack::const_iterator it = stack.find(&left);
-        if (it != stack.end())
+        // If we are already comparing left with right, only the rest of the two
+        // types can tell whether they are equal
+        std::pair<RecursionStack::const_iterator, RecursionStack::const_iterator> known =
+            stack.equal_range(&left);
+        for (RecursionStack::const_iterator it = known.first; it != known.second; ++it)
         {
-            /** One type cannot be equal to two different types. So either we
-             * are already comparing left and right and it is fine (return
-             * true). Or we are comparing it with a different type and that
-             * means the two types are different (return false)
-             */
-            return (&right == it->second);
+            if (it->second == &right)
+                return true;
         }
 
-        RecursionStack::iterator new_it = stack.insert( make_pair(&left, &right) ).first;
+        RecursionStack::iterator new_it = stack.insert( make_pair(&left, &right) );
         try {
             return left.do_compare(right, equality, stack);
         }
@@ -237,7 +236,7 @@ namespace Typelib
             m_values[it->first].insert(it->second.begin(), it->second.end());
     }
 
-    bool OpaqueType::do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+    bool OpaqueType::do_compare(Type const& other, bool equality, RecursionStack& stack) const
     { return Type::do_compare(other, equality, stack) && getName() == other.getName(); }
 
     Numeric::Numeric(std::string const& name, size_t size, NumericCategory category)
@@ -379,7 +378,7 @@ namespace Typelib
     Type* Compound::do_merge(Registry& registry, RecursionStack& stack) const
     {
         unique_ptr<Compound> result(new Compound(getName()));
-        RecursionStack::iterator onStackIter = stack.insert(make_pair(this, result.get())).first;
+        RecursionStack::iterator onStackIter = stack.insert(make_pair(this, result.get()));
 
         try  {
             for (FieldList::const_iterator it = m_fields.begin(); it != m_fields.end(); ++it)
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 91d6e15..1d0853c 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -164,8 +164,10 @@ namespace Typelib
          */
         Type const& merge(Registry& registry) const;
 
-        /** Foreign => local mapping for merge() and isSame() */
-        typedef std::map<Type const*, Type const*> RecursionStack;
+        /** Foreign => local mapping for merge(), and pairs of types already
+         * under comparison for isSame() and canCastTo(). In the latter case,
+         * the same type can be compared with more than one other type */
+        typedef std::multimap<Type const*, Type const*> RecursionStack;
 
         /** Base merge method. The default implementation should be fine for
          * most types.
@@ -220,7 +222,7 @@ namespace Typelib
          * The base definition compares the name, size and category of the
          * types.
          */
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
 
         /** Called by do_compare to compare +left+ to +right+. This method takes
          * into account potential loops in the recursion
@@ -256,8 +258,8 @@ namespace Typelib
     public:
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
-        { return other.getName() == getName(); }
+        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const
+        { return other.getCategory() == getCategory() && other.getName() == getName(); }
 
     private:
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new NullType(*this); }
@@ -272,7 +274,7 @@ namespace Typelib
     public:
         OpaqueType(std::string const& name, size_t size) : Type(name, size, Type::Opaque) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new OpaqueType(*this); }
     };
 
-- 
2.43.0


From b8f390acc7b1e98c31de667a642621091ee8e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:55 +0000
Subject: [PATCH 015/132] fix: refuse type names with unclosed dimensions, or
 text after pointer marks or unmatched '>' and ','

---
 typelib/typename.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index a74a675..ed1d0a7 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -59,7 +59,8 @@ namespace Typelib
 
         size_t modifiers = s.find_first_of("*[");
         if (modifiers != string::npos)
-            return isValidIdentifier(string(s, pos, modifiers - pos));
+            return isValidIdentifier(string(s, pos, modifiers - pos)) &&
+                s.find_first_not_of('*', modifiers) == string::npos;
         else
             return isValidIdentifier(string(s, pos));
 
@@ -143,14 +144,16 @@ namespace Typelib
                 if (start_pos != i && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
                     return make_pair(false, i);
 
-                if (i + 1 == s.length())
+                // The dimension extends up to the closing bracket
+                size_t closing = s.find_first_not_of("0123456789", i + 1);
+                if (closing == string::npos || s[closing] != ']')
                     return make_pair(false, i);
 
                 start_pos = i + 1;
             }
             else if (s[i] == ']')
             {
-                if (start_pos == i)
+                if (start_pos == i || start_pos == 0 || s[start_pos - 1] != '[')
                     return make_pair(false, start_pos);
                 if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
                     return make_pair(false, start_pos);
@@ -183,9 +186,12 @@ namespace Typelib
 
     bool isValidTypename(const std::string& name, bool absolute)
     {
-        if (name.empty())
+        if (name.empty() || (absolute && !isAbsoluteName(name)))
             return false;
-        return isValidTypename(name, 0, absolute, false).first;
+        // It must be valid, and it must be all of the name: the validation
+        // of template arguments stops at ',' and '>'
+        pair<bool, int> result = isValidTypename(name, 0, absolute, false);
+        return result.first && static_cast<size_t>(result.second) == name.length();
     }
 
     bool isValidNamespace(const string& name, bool absolute)
-- 
2.43.0


From fcd7d54aebc54cb6a3e33b427f38e2902cf10796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:55 +0000
Subject: [PATCH 016/132] fix: the minimal path to a type does not start with
 the name of a closer namespace

---
 typelib/typename.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index ed1d0a7..438e1c4 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -1,5 +1,6 @@
 #include "typename.hh"
 #include <boost/static_assert.hpp>
+#include <algorithm>
 #include <iostream>
 
 using namespace std;
@@ -282,10 +283,18 @@ namespace Typelib
         for (++remainder_it; remainder_it != tok1.end(); ++remainder_it)
             result += Typelib::NamespaceMarkString + *remainder_it;
 
-        while (!common_tokens.empty() && ns.find(result) != string::npos)
+        // It is also ambiguous if a namespace found earlier when going up from
+        // ns has the name that the result starts with: either one that leads to
+        // ns, or the one that leads from the common namespace to the type
+        list<string>::const_iterator const first = it1, end2 = tok2.end();
+        while (!common_tokens.empty() && (ns.find(result) != string::npos ||
+                    std::find(++list<string>::const_iterator(it2), end2, *it1) != end2 ||
+                    (it1 != first && *it1 == *first)))
         {
             result = common_tokens.back() + Typelib::NamespaceMarkString + result;
             common_tokens.pop_back();
+            --it1;
+            --it2;
         }
         if (common_tokens.empty())
             return type_ns;
-- 
2.43.0


From 1a9a195587791a81d34e7e42b50143cd5079c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 017/132] fix: a failing merge does not leave types that refer
 to a deleted compound

---
 typelib/typemodel.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index a29f8d8..84068f4 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -386,6 +386,14 @@ namespace Typelib
         }
         catch(...) {
             stack.erase(onStackIter);
+
+            // The types that depend on the new compound might have been
+            // registered already. Remove them, as they refer to an object that
+            // is about to be deleted.
+            std::set<Type*> dependents = registry.remove(*result);
+            dependents.erase(result.get());
+            for (std::set<Type*>::const_iterator it = dependents.begin(); it != dependents.end(); ++it)
+                delete *it;
             throw;
         }
 
-- 
2.43.0


From df9ba259208a173f3384b532791f10d46a3427b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 018/132] fix: merged arrays keep their size when merged while
 their element type is

---
 typelib/typemodel.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 84068f4..f75ebed 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -553,7 +553,10 @@ namespace Typelib
         // The pointed-to type has already been inserted in the repository by
         // Indirect::merge, so we don't have to worry.
         Type const& indirect_type = getIndirection().merge(registry, stack);
-        return new Array(indirect_type, m_dimension);
+        Array* result = new Array(indirect_type, m_dimension);
+        // indirect_type's size is not known yet if it is being merged as well
+        result->setSize(getSize());
+        return result;
     }
 
     bool Array::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
-- 
2.43.0


From da45474dcce340bd9b4141302c49f47f4a091dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 019/132] fix: source IDs and persistence of aliases through
 merge() and minimal()

---
 typelib/registry.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 3ed6c94..4c0dd89 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -181,8 +181,11 @@ namespace Typelib
     {
         for (Iterator other_it = registry.begin(); other_it != registry.end(); ++other_it)
         {
+            // setSourceID would change the ID of the aliased type
+            if (other_it.isAlias()) continue;
+
             RegistryIterator it = find(other_it.getName());
-            if (it == end())
+            if (it == end() || it.isAlias())
                 continue;
 
             string source_id = other_it.getSource();
@@ -207,7 +210,7 @@ namespace Typelib
             {
                 if (!it.isAlias()) continue;
                 if (result->has(it->getName(), false))
-                    result->alias(it->getName(), it.getName());
+                    result->alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
             }
         }
 
-- 
2.43.0


From da4a4fb7761ecf3d86a3d4ad935e91a6b0429081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 020/132] fix: vectors follow the definition of their elements
 through merges and resizes

---
 lang/csupport/containers.cc |  5 +++++
 lang/csupport/containers.hh |  1 +
 typelib/registry.cc         | 27 +++++++++++++++++++++++----
 typelib/registry.hh         |  5 +++++
 typelib/typemodel.hh        |  5 +++++
 5 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 6022a87..4e8ce94 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -25,6 +25,11 @@ Vector::Vector(Type const& on)
 {
 }
 
+void Vector::modifiedElementType()
+{
+    element_layout = getElementLayout(getIndirection());
+}
+
 bool Vector::isElementMemcpy() const
 {
     return element_layout.isMemcpy();
diff --git a/lang/csupport/containers.hh b/lang/csupport/containers.hh
index 75a6d6f..de4e5ca 100644
--- a/lang/csupport/containers.hh
+++ b/lang/csupport/containers.hh
@@ -31,6 +31,7 @@ public:
     void destroy(void* ptr) const;
     void clear(void*) const;
     long getNaturalSize() const;
+    void modifiedElementType();
     void push(void* ptr, Typelib::Value v) const;
     bool erase(void* ptr, Typelib::Value v) const;
     bool compare(void* ptr, void* other) const;
diff --git a/typelib/registry.cc b/typelib/registry.cc
index 4c0dd89..2879357 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -130,17 +130,33 @@ namespace Typelib
         return (this_type == &type);
     }
 
+    void Registry::updateContainers()
+    {
+        for(Iterator it = begin(); it != end(); ++it)
+        {
+            if (it.isAlias() || it->getCategory() != Type::Container) continue;
+            static_cast<Container&>(it.get_()).modifiedElementType();
+        }
+    }
+
     void Registry::merge(Registry const& registry)
     {
         Typelib::Type::RecursionStack stack;
 
         // Merge non aliased types. Aliases are never used by type model classes
         // so we can safely call merge()
-        for(Iterator it = registry.begin(); it != registry.end(); ++it)
-        {
-            if (it.isAlias()) continue;
-            it->merge(*this, stack);
+        try {
+            for(Iterator it = registry.begin(); it != registry.end(); ++it)
+            {
+                if (it.isAlias()) continue;
+                it->merge(*this, stack);
+            }
+        }
+        catch(...) {
+            updateContainers();
+            throw;
         }
+        updateContainers();
 
         for (Iterator it = registry.begin(); it != registry.end(); ++it)
         {
@@ -202,6 +218,7 @@ namespace Typelib
             throw std::runtime_error("there is no type '" + name + "' in this registry");
 
         type->merge(*result);
+        result->updateContainers();
 
         // Copy now the aliases
         if (with_aliases)
@@ -231,6 +248,7 @@ namespace Typelib
             if (!auto_types.has(it->getName()))
                 it->merge(*result);
         }
+        result->updateContainers();
 
         for (Iterator it = begin(); it != end(); ++it)
         {
@@ -593,6 +611,7 @@ namespace Typelib
             if (it.isAlias()) continue;
             it.get_().resize(*this, sizes);
         }
+        updateContainers();
     }
 
     std::set<Type const*> Registry::reverseDepends(Type const& type) const
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 79411c8..4263ace 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -260,6 +260,11 @@ namespace Typelib
         /** Returns a null type */
         static Type const& null();
 
+        /* Calls Container::modifiedElementType() on all containers
+         *
+         * You should not be using it. This is for internal Typelib use only */
+        void updateContainers();
+
         /** Merges the content of \c registry into this object */
         void merge(Registry const& registry);
 
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 1d0853c..32838a7 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -553,6 +553,11 @@ namespace Typelib
         virtual void destroy(void* ptr) const = 0;
         virtual bool visit(void* ptr, ValueVisitor& visitor) const = 0;
 
+        /** Called when the definition of the element type might have changed
+         * since this type got created, e.g. because it was not complete yet
+         */
+        virtual void modifiedElementType() {}
+
         /** If true, this is a random access container and both the
          * getElement(int) and setElement(int) methods can be used
          *
-- 
2.43.0


From 9b30c8a17aa6d326ab8fb4a6dba402878cc4f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 021/132] fix: refuse to resize unknown types, before anything
 is resized

---
 typelib/registry.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 2879357..0b2b036 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -599,12 +599,15 @@ namespace Typelib
         for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
                 it != new_sizes.end(); ++it)
         {
-            Type& t = *get_(it->first);
-            sizes.insert(make_pair(t.getName(),
-                        make_pair(t.getSize(), it->second)
+            Type* t = get_(it->first);
+            if (!t)
+                throw Undefined(it->first);
+            sizes.insert(make_pair(t->getName(),
+                        make_pair(t->getSize(), it->second)
                         ));
-            t.setSize(it->second);
         }
+        for (SizeMap::const_iterator it = sizes.begin(); it != sizes.end(); ++it)
+            get_(it->first)->setSize(it->second.second);
 
         for(Iterator it = begin(); it != end(); ++it)
         {
-- 
2.43.0


From bf36c78c9742e9b382782882326398db0eb0b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 022/132] fix: resizing does not follow pointers and
 containers, whose size does not depend on their element

---
 typelib/typemodel.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index f75ebed..3ec34c9 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -287,8 +287,9 @@ namespace Typelib
 
     bool Indirect::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
-        bool result = Type::do_resize(registry, new_sizes);
-        return registry.get_(getIndirection()).resize(registry, new_sizes) || result;
+        // The size of pointers and containers does not depend on the type they
+        // lead to (which might, moreover, lead back to them)
+        return Type::do_resize(registry, new_sizes);
     }
 
     Compound::Compound(std::string const& name)
@@ -561,7 +562,7 @@ namespace Typelib
 
     bool Array::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
-        if (!Indirect::do_resize(registry, new_sizes))
+        if (!registry.get_(getIndirection()).resize(registry, new_sizes))
             return false;
 
         setSize(getDimension() * getIndirection().getSize());
-- 
2.43.0


From e17c38bf9f7fc97701928b0bc8a402bfb150e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 023/132] fix: resizing shifts the fields of a compound only
 once even if its size does not change

---
 typelib/typemodel.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 3ec34c9..da979a0 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -412,6 +412,7 @@ namespace Typelib
     bool Compound::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
         size_t global_offset = 0;
+        bool   resized_fields = false;
         for (FieldList::iterator it = m_fields.begin(); it != m_fields.end(); ++it)
         {
             it->setOffset(it->getOffset() + global_offset);
@@ -421,14 +422,14 @@ namespace Typelib
             {
                 size_t old_size = new_sizes.find(field_type.getName())->second.first;
                 global_offset += field_type.getSize() - old_size;
+                resized_fields = true;
             }
         }
         if (global_offset != 0)
-        {
             setSize(getSize() + global_offset);
-            return true;
-        }
-        return false;
+        // Even if the total size is unchanged, the offsets might have been and
+        // must not be updated a second time
+        return resized_fields;
     }
 
     void Compound::mergeMetaData(Type const& other) const
-- 
2.43.0


From 0c2b22781b63c456ecd64d64a2fd899e0a2a085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 024/132] fix: compare all the types of two registries, and the
 names under which they are known

---
 typelib/registry.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 0b2b036..67bfdd8 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -583,9 +583,13 @@ namespace Typelib
 
         while (left_it != left_end)
         {
-            if (!left_it->second.type->isSame(*right_it->second.type))
+            Type const& left(*left_it->second.type);
+            Type const& right(*right_it->second.type);
+            if (left_it->first != right_it->first || left.getName() != right.getName())
                 return false;
-            left_it++; left_end++;
+            if (!left.isSame(right))
+                return false;
+            ++left_it; ++right_it;
         }
         return true;
     }
-- 
2.43.0


From 8be35fb19699ebc7a43a4e63f085a6cce7442ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 025/132] fix: a new type is hidden by types of inner
 namespaces only, whatever the names of the namespaces

---
 typelib/registry.cc | 39 +++++++++++++++++++++++++--------------
 typelib/registry.hh |  5 +++++
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 67bfdd8..281b3b3 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -59,6 +59,21 @@ namespace Typelib
     }
     Registry::~Registry() { clear(); }
 
+    std::vector<std::string> Registry::getNamespacePath() const
+    {
+        std::vector<std::string> result;
+        std::string cur_space = NamespaceMarkString;
+        result.push_back(cur_space);
+        NameTokenizer tokens( m_namespace );
+        NameTokenizer::const_iterator ns_it = tokens.begin();
+        for (; ns_it != tokens.end(); ++ns_it)
+        {
+            cur_space += *ns_it + NamespaceMarkString;
+            result.push_back(cur_space);
+        }
+        return result;
+    }
+
     void Registry::updateCurrentNameMap()
     {
         m_current.clear();
@@ -363,28 +378,24 @@ namespace Typelib
         m_global.insert (make_pair(name, regtype));
         m_current.insert(make_pair(name, regtype));
 
-        NameTokenizer tokens( m_namespace );
-        NameTokenizer::const_iterator ns_it = tokens.begin();
-        std::string cur_space = NamespaceMarkString;
-        while(true)
+        std::vector<std::string> spaces = getNamespacePath();
+        for (size_t i = 0; i < spaces.size(); ++i)
         {
-            if (name.size() <= cur_space.size() || string(name, 0, cur_space.size()) != cur_space)
+            if (name.size() <= spaces[i].size() || name.compare(0, spaces[i].size(), spaces[i]) != 0)
                 break;
 
-            string cur_name  = getRelativeName(name, cur_space);
+            string cur_name  = getRelativeName(name, spaces[i]);
 
-            // Check if there is already a type with the same relative name
-            TypeMap::iterator it = m_current.find(cur_name);
-            if (it == m_current.end() || !nameSort(it->second.type->getName(), name))
+            // Check if there is already a type with the same relative name in
+            // an inner namespace
+            bool hidden = false;
+            for (size_t inner = i + 1; inner < spaces.size() && !hidden; ++inner)
+                hidden = m_global.count(spaces[inner] + cur_name);
+            if (!hidden)
             {
                 m_current.erase(cur_name);
                 m_current.insert(make_pair(cur_name, regtype));
             }
-
-            if (ns_it == tokens.end())
-                break;
-            cur_space += *ns_it + NamespaceMarkString;
-            ++ns_it;
         }
     }
 
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 4263ace..5b898a2 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -116,6 +116,11 @@ namespace Typelib
          */
         std::set<Type*> reverseDepends(Type const& type);
 
+        /** Returns the default namespace and the ones that contain it, outermost
+         * first
+         */
+        std::vector<std::string> getNamespacePath() const;
+
         /** Updates +m_current+ based on +m_global+ and the current default
          * namespace
          */
-- 
2.43.0


From 1f6441f88967495434e48ac038781086d623d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 026/132] fix: removing a type gives its relative name back to
 the type it was hiding

---
 typelib/registry.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 281b3b3..f2fdf36 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -698,6 +698,11 @@ namespace Typelib
             else ++current_it;
         }
 
+        // Types of outer namespaces might have been hidden by the removed ones
+        std::vector<std::string> spaces = getNamespacePath();
+        for (size_t i = spaces.size(); i > 0; --i)
+            importNamespace(spaces[i - 1], false);
+
         return types;
     }
 
-- 
2.43.0


From 17371cdf6f43d6eebd3a26820226328b6fbde6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 027/132] fix: derived types are built from all names by which
 their base type can be accessed

---
 typelib/registry.cc    | 4 ++--
 typelib/typebuilder.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index f2fdf36..240c15b 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -300,7 +300,7 @@ namespace Typelib
         if (! build_if_missing)
             return false;
 
-        const Type* base_type = TypeBuilder::getBaseType(*this, getFullName(name));
+        const Type* base_type = TypeBuilder::getBaseType(*this, name);
         return base_type;
     }
 
@@ -310,7 +310,7 @@ namespace Typelib
         if (type)
             return type;
 
-        return TypeBuilder::build(*this, getFullName(name), size);
+        return TypeBuilder::build(*this, name, size);
     }
 
     Type* Registry::get_(const std::string& name)
diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index bcec4a1..f93d1ae 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -121,7 +121,7 @@ namespace Typelib
         ParsedTypename result;
         ModifierList& modlist(result.second);
         int end = full_name.size() - 1;
-        while (end > 0)
+        while (end >= 0)
         {
             Modifier new_mod;
             if (full_name[end] == ']')
-- 
2.43.0


From 41cd73790ec81b22361b1d1fab7b16acef123b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 028/132] fix: names of derived types that are not well formed
 do not name a type

---
 typelib/typebuilder.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index f93d1ae..6a897b0 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -130,7 +130,14 @@ namespace Typelib
                 if (start == string::npos)
                     throw InvalidIndirectName(full_name + " is not a valid type name: array definition missing opening bracket at character " + boost::lexical_cast<std::string>(end));
                 new_mod.category = Type::Array;
-                new_mod.size = atoi(&full_name[start] + 1);
+                string dimension(full_name, start + 1, end - start - 1);
+                if (dimension.empty() || dimension.find_first_not_of("0123456789") != string::npos)
+                    throw InvalidIndirectName(full_name + " is not a valid type name: '" + dimension + "' is not an array dimension");
+                try { new_mod.size = boost::lexical_cast<int>(dimension); }
+                catch(boost::bad_lexical_cast const&)
+                {
+                    throw InvalidIndirectName(full_name + " is not a valid type name: the array dimension " + dimension + " is too large");
+                }
                 end = start - 1;
                 modlist.push_front(new_mod);
             }
@@ -167,6 +174,7 @@ namespace Typelib
         TypeSpec spec;
         try { spec = parse(registry, full_name); }
         catch(Undefined&) { return NULL; }
+        catch(InvalidIndirectName&) { return NULL; }
 
         return &build(registry, spec, size);
     }
@@ -176,6 +184,7 @@ namespace Typelib
         TypeSpec spec;
         try { spec = parse(registry, full_name); }
         catch(Undefined&) { return NULL; }
+        catch(InvalidIndirectName&) { return NULL; }
         return spec.first;
     }
 
-- 
2.43.0


From e5b90ce6e00c591d9dad53a219af23c39a463c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 029/132] fix: escape all the text written to tlb documents

Names of numerics, enums and null types, symbols, field names and metadata
keys were written as they are, '&' and quotes were never escaped, and
metadata values could end their CDATA section.
---
 lang/tlb/export.cc | 52 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 19e6185..baf2dcf 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -48,22 +48,42 @@ namespace
     TlbExportVisitor::TlbExportVisitor(ostream& stream, string const& base_indent, std::string const& source_id)
         : m_stream(stream), m_indent(base_indent), m_source_id(source_id) {}
 
+    // Escapes the string so that it can be used as the value of an attribute
     std::string xmlEscape(std::string const& source)
     {
-        string result = source;
-        size_t pos = result.find_first_of("<>");
-        while (pos != string::npos)
+        string result;
+        for (string::const_iterator it = source.begin(); it != source.end(); ++it)
         {
-            if (result[pos] == '<')
-                result.replace(pos, 1, "&lt;");
-            else if (result[pos] == '>')
-                result.replace(pos, 1, "&gt;");
-            pos = result.find_first_of("<>");
+            switch (*it)
+            {
+                case '&':  result += "&amp;"; break;
+                case '<':  result += "&lt;"; break;
+                case '>':  result += "&gt;"; break;
+                case '"':  result += "&quot;"; break;
+                // Literal ones would be read as spaces
+                case '\t': result += "&#9;"; break;
+                case '\n': result += "&#10;"; break;
+                case '\r': result += "&#13;"; break;
+                default:   result += *it;
+            }
         }
-
         return result;
     }
 
+    // A CDATA section ends at the first "]]>", split those that are in the
+    // string between two sections
+    std::string xmlCData(std::string const& source)
+    {
+        string const end_mark = "]]>", split = "]]><![CDATA[";
+        string content = source;
+        for (size_t pos = content.find(end_mark); pos != string::npos; pos = content.find(end_mark, pos))
+        {
+            content.insert(pos + 2, split);
+            pos += 2 + split.length();
+        }
+        return "<![CDATA[" + content + "]]>";
+    }
+
     std::string TlbExportVisitor::emitMetaData(Type const& type) const
     {
         return emitMetaData(type.getMetaData());
@@ -74,7 +94,7 @@ namespace
         MetaData::Map const& map = metadata.get();
         for (MetaData::Map::const_iterator it = map.begin(); it != map.end(); ++it)
         {
-            std::string key = it->first;
+            std::string key = xmlEscape(it->first);
             MetaData::Values values = it->second;
             if (values.empty())
             {
@@ -83,7 +103,7 @@ namespace
             else
             {
                 for (MetaData::Values::const_iterator it_value = values.begin(); it_value != values.end(); ++it_value)
-                    stream << "<metadata key=\"" << key << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                    stream << "<metadata key=\"" << key << "\">" << xmlCData(*it_value) << "</metadata>\n";
             }
         }
         return stream.str();
@@ -121,7 +141,7 @@ namespace
     {
         m_stream
             << m_indent
-            << "<field name=\"" << field.getName() << "\""
+            << "<field name=\"" << xmlEscape(field.getName()) << "\""
             << " type=\""   << xmlEscape(field.getType().getName())  << "\""
             << " offset=\"" << field.getOffset() << "\">\n";
         m_stream << m_indent << emitMetaData(field.getMetaData()) << "\n";
@@ -150,7 +170,7 @@ namespace
     bool TlbExportVisitor::visit_(Numeric const& type)
     {
         m_stream
-            << "<numeric name=\"" << type.getName() << "\" "
+            << "<numeric name=\"" << xmlEscape(type.getName()) << "\" "
             << "category=\"" << getStringCategory(type.getNumericCategory()) << "\" "
             << "size=\"" << type.getSize() << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
@@ -160,7 +180,7 @@ namespace
     }
     bool TlbExportVisitor::visit_ (NullType const& type)
     {
-        m_stream << "<null " << " name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<null " << " name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</null>";
         return true;
@@ -207,11 +227,11 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
-                m_stream << m_indent << "<value symbol=\"" << it->first << "\" value=\"" << it->second << "\"/>\n";
+                m_stream << m_indent << "<value symbol=\"" << xmlEscape(it->first) << "\" value=\"" << it->second << "\"/>\n";
         }
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</enum>";
-- 
2.43.0


From 68e5da8853702c15a7998c721a4ed05cee3e0bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 030/132] fix: imported containers keep their source

---
 lang/tlb/import.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 9a6b46e..f0515cd 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -222,6 +222,8 @@ namespace
             factory.getRegistry().get_(*container).setSize(size);
         }
         loadMetaData(node, container->getMetaData());
+        if (!node.file.empty())
+            factory.getRegistry().setSourceID(*container, node.file);
         return container;
     }
     Type const* load_enum(TypeNode const& node, Factory& factory)
-- 
2.43.0


From 93e21f599a63bc0651b7769f7c1cc6ff94f0c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 031/132] fix: importing a container under another name does
 not change the known one

---
 lang/tlb/import.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index f0515cd..21fd546 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -212,7 +212,13 @@ namespace
         }
         catch(Parsing::MissingAttribute&) {}
 
+        size_t known_types = factory.getRegistry().size();
         Type const* container = &Container::createContainer(factory.getRegistry(), kind, *indirect);
+        // The definition might be about a container that is already known, by
+        // another name. What is known is not changed by what is imported
+        if (factory.getRegistry().size() == known_types)
+            return container;
+
         // We use zero size to indicate that the natural platform size should be
         // used
         if (has_size && size != 0)
-- 
2.43.0


From 3734b17de766ab14917efbb9dd16b1ff522e1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 032/132] fix: definitions refused during an import are not
 leaked

---
 lang/tlb/import.cc | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 21fd546..8f8fc83 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -8,6 +8,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 // Helpers
 namespace
@@ -100,10 +101,11 @@ namespace
 
         Registry& getRegistry() { return m_registry; }
 
-        void insert(TypeNode const& type, Type* object)
+        Type const* insert(TypeNode const& type, std::unique_ptr<Type> object)
         {
             loadMetaData(type, object->getMetaData());
-            m_registry.add(object, type.file);
+            m_registry.add(object.get(), type.file);
+            return object.release();
         }
 
         void alias (TypeNode const& type, string const& new_name)
@@ -182,22 +184,19 @@ namespace
             , reinterpret_cast<xmlChar const*>(getAttribute<string>(node.xml, "category").c_str()) );
         size_t      size = getAttribute<size_t>(node.xml, "size");
 
-        Type* type = new Numeric(node.name, size, category.type);
-        factory.insert(node, type);
-        return type;
+        std::unique_ptr<Type> type(new Numeric(node.name, size, category.type));
+        return factory.insert(node, std::move(type));
     }
     Type const* load_null(TypeNode const& node, Factory& factory)
     {
-        Type* type = new NullType(node.name);
-        factory.insert(node, type);
-        return type;
+        std::unique_ptr<Type> type(new NullType(node.name));
+        return factory.insert(node, std::move(type));
     }
     Type const* load_opaque(TypeNode const& node, Factory& factory)
     {
         size_t size = getAttribute<size_t>(node.xml, "size");
-        Type* type = new OpaqueType(node.name, size);
-        factory.insert(node, type);
-        return type;
+        std::unique_ptr<Type> type(new OpaqueType(node.name, size));
+        return factory.insert(node, std::move(type));
     }
     Type const* load_container(TypeNode const& node, Factory& factory)
     {
@@ -234,7 +233,7 @@ namespace
     }
     Type const* load_enum(TypeNode const& node, Factory& factory)
     {
-        Enum* type = new Enum(node.name);
+        std::unique_ptr<Enum> type(new Enum(node.name));
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
         {
             if (xmlStrcmp(xml->name, reinterpret_cast<const xmlChar*>("value")))
@@ -245,8 +244,7 @@ namespace
             type->add(symbol, value);
         }
 
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::move(type));
     }
     Type const* load_alias(TypeNode const& node, Factory& factory)
     {
@@ -259,7 +257,7 @@ namespace
 
     Type const* load_compound(TypeNode const& node, Factory& factory)
     {
-        Compound* compound = new Compound(node.name);
+        std::unique_ptr<Compound> compound(new Compound(node.name));
         size_t size = getAttribute<size_t>(node.xml, "size");
 
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
@@ -279,8 +277,7 @@ namespace
 
         compound->normalizeFieldOrder();
         compound->setSize(size);
-        factory.insert(node, compound);
-        return compound;
+        return factory.insert(node, std::move(compound));
     }
 }
 
-- 
2.43.0


From 03bb416c4540a86d55fafe981cc143235226bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 033/132] fix: errors while writing the end of an exported file
 are reported

---
 typelib/exporter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typelib/exporter.cc b/typelib/exporter.cc
index 9b4468b..cf8c123 100644
--- a/typelib/exporter.cc
+++ b/typelib/exporter.cc
@@ -28,6 +28,8 @@ void Exporter::save(std::string const &file_name,
     // and then call the internal "save()" function giving it the prepared
     // 'ofstream' object
     save(file, config, registry);
+    // and write what is still buffered, as the destructor ignores errors
+    file.close();
 }
 
 void Exporter::save(std::ostream& stream, utilmm::config_set const& config, Registry const& registry)
-- 
2.43.0


From f0ef6834eedd91c4f4249cc4015b4d318556b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 034/132] fix: enums and blobs are declared in IDL under the
 name that is used to refer to them

---
 lang/idl/export.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 859e4ba..ef1aac4 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -350,7 +350,7 @@ namespace
 
     bool IDLExportVisitor::visit_ (Enum const& type)
     {
-        m_stream << m_indent << "enum " << stripLeadingUnderscore(type.getBasename()) << " { ";
+        m_stream << m_indent << "enum " << normalizeIDLName(type.getBasename()) << " { ";
 
         list<string> symbols;
         Enum::ValueMap const& values = type.values();
@@ -596,7 +596,7 @@ bool IDLExport::save
             string indent_string = string(ns_size * 4, ' ');
 
             adaptNamespace(stream, target_namespace);
-            stream << indent_string << "typedef sequence<octet> " << type->getBasename() << ";\n";
+            stream << indent_string << "typedef sequence<octet> " << normalizeIDLName(type->getBasename()) << ";\n";
             return true;
         }
         else
-- 
2.43.0


From 2691084c25824f0c3b3dbd6a2d027963e8d2f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 035/132] fix: an IDL exporter can be used more than once

---
 lang/idl/export.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index ef1aac4..5fa21c9 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -473,6 +473,12 @@ void IDLExport::save
     , utilmm::config_set const& config
     , Typelib::Registry const& type )
 {
+    // Forget what has been left by the previous export
+    m_namespace = Typelib::NamespaceMarkString;
+    m_indent.clear();
+    m_typedefs.clear();
+    m_exported_typedefs.clear();
+
     m_ns_prefix = config.get<std::string>("namespace_prefix", "");
     if (!m_ns_prefix.empty() && string(m_ns_prefix, 0, 1) != Typelib::NamespaceMarkString)
         m_ns_prefix = Typelib::NamespaceMarkString + m_ns_prefix;
-- 
2.43.0


From 36d7494dc6222dfe332e8045926e5023d3e82a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 036/132] fix: directories of the plugin path that cannot be
 read do not prevent from using the others

---
 typelib/pluginmanager.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/pluginmanager.cc b/typelib/pluginmanager.cc
index 2172e00..cbccd41 100644
--- a/typelib/pluginmanager.cc
+++ b/typelib/pluginmanager.cc
@@ -93,8 +93,10 @@ bool PluginManager::loadPluginFromDirectory(std::string const& directory)
     path plugin_dir(directory);
     bool success = false;
 
+    // directories that cannot be read are reported below as the ones without plugins
+    boost::system::error_code error;
     directory_iterator end_it;
-    for (directory_iterator it(plugin_dir); it != end_it; ++it)
+    for (directory_iterator it(plugin_dir, error); it != end_it; ++it)
     {
         if (it->path().extension() == ".so" || it->path().extension() == ".dylib")
 #if BOOST_VERSION >= 104600
-- 
2.43.0


From 0d310351d950fd1646d7b81123ff191e017c35a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 037/132] fix: singletons can use others while they are created
 and destroyed

---
 typelib/utilmm/singleton/dummy.cc  |  7 ++++---
 typelib/utilmm/singleton/server.cc |  6 ++----
 typelib/utilmm/singleton/server.hh | 20 +++++++++++++++++++-
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/typelib/utilmm/singleton/dummy.cc b/typelib/utilmm/singleton/dummy.cc
index efbccec..2b35b7b 100644
--- a/typelib/utilmm/singleton/dummy.cc
+++ b/typelib/utilmm/singleton/dummy.cc
@@ -27,13 +27,14 @@ bool dummy::decr_ref() const {
 // statics
 void dummy::attach(std::string const &name, details::dummy_factory const& inst) {
   server::lock_type locker(server::sing_mtx);
-  server::instance().attach(name, inst);
+  server::call call;
+  call.serv.attach(name, inst);
 }
 
 void dummy::detach(std::string const &name) {
   server::lock_type locker(server::sing_mtx);
-  if( server::instance().detach(name) )
-    delete server::the_instance;
+  server::call call;
+  call.serv.detach(name);
 }
 
 dummy *dummy::instance(std::string const &name) {
diff --git a/typelib/utilmm/singleton/server.cc b/typelib/utilmm/singleton/server.cc
index 5f37eb2..595d8f5 100644
--- a/typelib/utilmm/singleton/server.cc
+++ b/typelib/utilmm/singleton/server.cc
@@ -16,7 +16,7 @@ boost::recursive_mutex utilmm::singleton::server::sing_mtx;
  * class utilmm::singleton::server
  */
 // structors
-server::server() {
+server::server() :calls(0ul) {
   the_instance = this;
 }
 
@@ -33,7 +33,7 @@ void server::attach(std::string const &name, details::dummy_factory const& facto
   it->second->incr_ref();
 }
 
-bool server::detach(std::string const &name) {
+void server::detach(std::string const &name) {
   single_map::iterator i = singletons.find(name);
 
   if( i->second->decr_ref() ) {
@@ -41,9 +41,7 @@ bool server::detach(std::string const &name) {
 
     singletons.erase(i);
     delete to_del;
-    return singletons.empty();
   }
-  return false;
 }
 
 // observers
diff --git a/typelib/utilmm/singleton/server.hh b/typelib/utilmm/singleton/server.hh
index 30a722c..68ad728 100644
--- a/typelib/utilmm/singleton/server.hh
+++ b/typelib/utilmm/singleton/server.hh
@@ -30,7 +30,7 @@ namespace utilmm {
       static server &instance();
 
       void attach(std::string const &name, details::dummy_factory const& factory);
-      bool detach(std::string const &name);
+      void detach(std::string const &name);
 
       dummy *get(std::string const &name) const;
 
@@ -40,6 +40,24 @@ namespace utilmm {
 
       static server *the_instance;
 
+      /** Number of attach() and detach() calls in progress. Creating or
+       * destroying a singleton may attach and detach others, and the server
+       * must not be destroyed by these.
+       */
+      size_t calls;
+
+      /** Access to the server for the duration of a call. The server is
+       * destroyed at the end of the outermost one if nothing uses it anymore
+       */
+      struct call {
+        server& serv;
+        call() :serv(server::instance()) { ++serv.calls; }
+        ~call() {
+          if( 0==--serv.calls && serv.singletons.empty() )
+            delete &serv;
+        }
+      };
+
       typedef boost::recursive_mutex mutex_type;
       typedef mutex_type::scoped_lock lock_type;
 
-- 
2.43.0


From 8f95b6fd1476818523e88a10227fbded2c5c7b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 038/132] fix: plugins that are found several times are not
 leaked

---
 typelib/plugins.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/typelib/plugins.hh b/typelib/plugins.hh
index 0ff481c..1ea7d72 100644
--- a/typelib/plugins.hh
+++ b/typelib/plugins.hh
@@ -44,13 +44,20 @@ namespace Typelib
     };
 }
 
+/** Registers a plugin for klass, unless there is already one of that name */
+#define TYPELIB_ADD_IO_PLUGIN(name, klass) {\
+    Typelib::GenericIOPlugin<klass>* plugin = new Typelib::GenericIOPlugin<klass>(#name); \
+    if (!manager.add(plugin)) \
+        delete plugin; \
+}
+
 #define TYPELIB_REGISTER_IO2(name, klass1, klass2) extern "C" void registerPlugins(Typelib::PluginManager& manager) {\
-    manager.add(new Typelib::GenericIOPlugin<klass1>(#name)); \
-    manager.add(new Typelib::GenericIOPlugin<klass2>(#name)); \
+    TYPELIB_ADD_IO_PLUGIN(name, klass1) \
+    TYPELIB_ADD_IO_PLUGIN(name, klass2) \
 }
 
 #define TYPELIB_REGISTER_IO1(name, klass1) extern "C" void registerPlugins(Typelib::PluginManager& manager) {\
-    manager.add(new Typelib::GenericIOPlugin<klass1>(#name)); \
+    TYPELIB_ADD_IO_PLUGIN(name, klass1) \
 }
 
 #endif
-- 
2.43.0


From 0fd4ae9cdcffd99580f41fd64ae87ac1257dcb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 039/132] fix: the registry classes can be used whatever the
 Ruby version

CXXRegistry was derived from Registry before the extension had defined the
allocator of the latter, and got the one of Object
---
 bindings/ruby/lib/typelib.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 780349c..2d76c70 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -201,9 +201,10 @@ require 'typelib/metadata'
 
 require 'typelib/registry'
 require 'typelib/registry_export'
-require 'typelib/cxx_registry'
 require 'typelib/specializations'
 require 'typelib_ruby'
+# Registry must have its allocator before it is derived from
+require 'typelib/cxx_registry'
 
 Typelib::Type.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::IndirectType.instance_variable_set :@metadata, Typelib::MetaData.new
-- 
2.43.0


From c96b09e4c138b035ebb07547aae7f2abf1725a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 040/132] fix: 32-bit unsigned values of 2^31 and more are not
 read as negative in Ruby

---
 bindings/ruby/ext/convert.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 44645de..8e31210 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -18,7 +18,7 @@ bool RubyGetter::visit_ (uint8_t & value) { m_value = INT2FIX(value); return fal
 bool RubyGetter::visit_ (int16_t & value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (uint16_t& value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (int32_t & value) { m_value = INT2NUM(value); return false; }
-bool RubyGetter::visit_ (uint32_t& value) { m_value = INT2NUM(value); return false; }
+bool RubyGetter::visit_ (uint32_t& value) { m_value = UINT2NUM(value); return false; }
 bool RubyGetter::visit_ (int64_t & value) { m_value = LL2NUM(value);  return false; }
 bool RubyGetter::visit_ (uint64_t& value) { m_value = ULL2NUM(value); return false; }
 bool RubyGetter::visit_ (float   & value) { m_value = rb_float_new(value); return false; }
-- 
2.43.0


From 95136a90f67777b3927b4a27291a26aed066084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 041/132] fix: 64-bit unsigned values of 2^63 and more can be
 set from Ruby

---
 bindings/ruby/ext/convert.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 8e31210..2386fa0 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -90,7 +90,7 @@ bool RubySetter::visit_ (uint16_t& value) { value = NUM2UINT(m_value); return fa
 bool RubySetter::visit_ (int32_t & value) { value = NUM2INT(m_value); return false; }
 bool RubySetter::visit_ (uint32_t& value) { value = NUM2UINT(m_value); return false; }
 bool RubySetter::visit_ (int64_t & value) { value = NUM2LL(m_value);  return false; }
-bool RubySetter::visit_ (uint64_t& value) { value = NUM2LL(m_value); return false; }
+bool RubySetter::visit_ (uint64_t& value) { value = NUM2ULL(m_value); return false; }
 bool RubySetter::visit_ (float   & value) { value = NUM2DBL(m_value); return false; }
 bool RubySetter::visit_ (double  & value) { value = NUM2DBL(m_value); return false; }
 
-- 
2.43.0


From c57e0a6d2624f7a709f66da5c16052f22ca81f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 042/132] fix: negative indexes of arrays are always out of
 bounds in Ruby

They gave the last of the elements that had been accessed before
---
 bindings/ruby/lib/typelib/array_type.rb | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index aee8b12..baa2ccb 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -152,6 +152,9 @@ module Typelib
         end
 
         def raw_get(index)
+            if index < 0
+                raise IndexError, "Out of bounds: #{index} < 0"
+            end
             @elements[index] ||= do_get(index)
         end
 
-- 
2.43.0


From 539a5f98195cea78e9d742f77f0000069d156e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 043/132] fix: values can be created from false in Ruby

---
 bindings/ruby/lib/typelib/type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 48fe5ac..5b4ea6f 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -611,7 +611,7 @@ module Typelib
             end
 
             def create(init: nil, zero: Typelib.zero_all_values?)
-                if init
+                if !init.nil?
                     new_value = Typelib.from_ruby(init, self)
                 else
                     new_value = value_new(zero)
-- 
2.43.0


From 910efe5743f7df26fbb6dbadeeebe5f628d25546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 044/132] fix: strings with characters of several bytes are
 converted completely from Ruby

---
 bindings/ruby/lib/typelib/standard_convertions.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/standard_convertions.rb b/bindings/ruby/lib/typelib/standard_convertions.rb
index fb3e3fb..4b26d59 100644
--- a/bindings/ruby/lib/typelib/standard_convertions.rb
+++ b/bindings/ruby/lib/typelib/standard_convertions.rb
@@ -26,7 +26,7 @@ module Typelib
     end
 
     convert_from_ruby String, '/std/string' do |value, typelib_type|
-        typelib_type.wrap([value.length, value].pack("QA#{value.length}"))
+        typelib_type.wrap([value.bytesize, value].pack("Qa#{value.bytesize}"))
     end
     convert_to_ruby '/std/string', String do |value|
         value = value.to_byte_array[8..-1]
-- 
2.43.0


From d85d55fd2ca5c9a9e4e654b1d31defcfa0a73da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 045/132] fix: the ways to access a converted field in Ruby
 agree with each other

What was set with the field's accessor was not seen by get and [], and what was
set with set and [] was hidden, and undone by the next operation, when the
accessor had been used before
---
 bindings/ruby/lib/typelib/compound_type.rb | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 647eca9..f837ef1 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -97,10 +97,30 @@ module Typelib
                             @fields[field_name].apply_changes_from_converted_types
                         end
                         set_field(field_name, value)
+                        instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
                     end
                 end
             end
 
+            # The converted value might hold changes that are not applied yet
+            def get(name)
+                if self.class.converted_fields.include?(name.to_s)
+                    value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{name}")
+                    return value if !value.nil?
+                end
+                super(name)
+            end
+
+            # Setting a field overrides the changes that have been made to its
+            # converted value so far
+            def raw_set(name, value)
+                result = super(name, value)
+                if self.class.converted_fields.include?(name.to_s)
+                    instance_variable_set("@#{FIELD_NANE_PREFIX}#{name}", nil)
+                end
+                result
+            end
+
             def dup
                 new_value = super()
                 for field_name in self.class.converted_fields
-- 
2.43.0


From 8337ba90d6a37f8c34904ca5444b318c069fab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 046/132] fix: elements of converted arrays in Ruby stay usable
 when the array is written back

---
 bindings/ruby/lib/typelib/compound_type.rb | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index f837ef1..402dbd8 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -98,9 +98,26 @@ module Typelib
                         end
                         set_field(field_name, value)
                         instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
+                        if value.kind_of?(Array)
+                            update_converted_elements(value, raw_get(field_name))
+                        end
+                    end
+                end
+            end
+
+            # Once an array has been written to a container, its elements that
+            # were giving access to the container's elements might have been
+            # invalidated, or be elements at another position
+            def update_converted_elements(array, container)
+                array.each_with_index do |el, i|
+                    if el.kind_of?(Array)
+                        update_converted_elements(el, container.raw_get(i))
+                    elsif el.kind_of?(Type) && (el.invalidated? || el.__typelib_parent.equal?(container))
+                        array[i] = container.raw_get(i)
                     end
                 end
             end
+            private :update_converted_elements
 
             # The converted value might hold changes that are not applied yet
             def get(name)
-- 
2.43.0


From c740aaa59831aadf8a46c51096d681612038f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 047/132] fix: changes made to elements of arrays and
 containers in Ruby are not lost

---
 bindings/ruby/lib/typelib/array_type.rb     | 14 ++++++++++++++
 bindings/ruby/lib/typelib/container_type.rb | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index baa2ccb..897f254 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -151,6 +151,20 @@ module Typelib
             @elements.compact.each(&block)
         end
 
+        def apply_changes_from_converted_types
+            super
+            if self.class.contains_converted_types?
+                raw_each_cached(&:apply_changes_from_converted_types)
+            end
+        end
+
+        def invalidate_changes_from_converted_types
+            super
+            if self.class.contains_converted_types?
+                raw_each_cached(&:invalidate_changes_from_converted_types)
+            end
+        end
+
         def raw_get(index)
             if index < 0
                 raise IndexError, "Out of bounds: #{index} < 0"
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 4a57431..a0002f0 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -315,6 +315,20 @@ module Typelib
             @elements.compact.each(&block)
         end
 
+        def apply_changes_from_converted_types
+            super
+            if self.class.contains_converted_types?
+                raw_each_cached(&:apply_changes_from_converted_types)
+            end
+        end
+
+        def invalidate_changes_from_converted_types
+            super
+            if self.class.contains_converted_types?
+                raw_each_cached(&:invalidate_changes_from_converted_types)
+            end
+        end
+
         def raw_each
             return enum_for(:raw_each) if !block_given?
 
-- 
2.43.0


From a46b13d1602fd11f073a93d4189b818f46dd1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 048/132] fix: copying a value in Ruby does not modify its
 converted fields

---
 bindings/ruby/lib/typelib/compound_type.rb | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 402dbd8..7298756 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -137,18 +137,6 @@ module Typelib
                 end
                 result
             end
-
-            def dup
-                new_value = super()
-                for field_name in self.class.converted_fields
-                    converted_value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
-                    if !converted_value.kind_of?(Symbol)
-                        converted_value = converted_value.dup
-                    end
-                    instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", converted_value.dup)
-                end
-                new_value
-            end
         end
 
         # Internal method used to initialize a compound from a hash
-- 
2.43.0


From 724fdae4226bc7df33f76b0fce9c993e9757dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 049/132] fix: enum symbols can be given to containers in Ruby

---
 bindings/ruby/lib/typelib/enum_type.rb | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/ruby/lib/typelib/enum_type.rb b/bindings/ruby/lib/typelib/enum_type.rb
index 196761c..f87a4f2 100644
--- a/bindings/ruby/lib/typelib/enum_type.rb
+++ b/bindings/ruby/lib/typelib/enum_type.rb
@@ -19,6 +19,11 @@ module Typelib
         end
 
         class << self
+            # Symbols and strings are accepted in place of enum values
+            def needs_convertion_from_ruby?
+                true
+            end
+
             # Returns the description of a type using only simple ruby objects
             # (Hash, Array, Numeric and String).
             #
-- 
2.43.0


From 46e01a6447cf066c0e2ed2ed4ae0b53fa9301b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 050/132] fix: declared convertions of numeric types, booleans
 among them, always apply in Ruby

---
 bindings/ruby/lib/typelib/compound_type.rb  | 2 ++
 bindings/ruby/lib/typelib/container_type.rb | 4 +++-
 bindings/ruby/lib/typelib/numeric_type.rb   | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 7298756..3358886 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -477,6 +477,8 @@ module Typelib
                 if value.kind_of?(Typelib::Type)
                     @fields[name] = value
                     Typelib.to_ruby(value, @field_types[name])
+                elsif @field_types[name].needs_convertion_to_ruby?
+                    Typelib.to_ruby(raw_get(name), @field_types[name])
                 else value
                 end
             end
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index a0002f0..a8b7b19 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -89,6 +89,8 @@ module Typelib
             def get_no_boundary_check(index)
                 if @elements[index]
                     return __element_to_ruby(@elements[index])
+                elsif element_t.needs_convertion_to_ruby?
+                    __element_to_ruby(raw_get_no_boundary_check(index))
                 else
                     value = do_get(index, false)
                     if value.kind_of?(Typelib::Type)
@@ -344,7 +346,7 @@ module Typelib
             return enum_for(:each) if !block_given?
 
             idx = 0
-            do_each(false) do |el|
+            do_each(element_t.needs_convertion_to_ruby?) do |el|
                 if el.kind_of?(Typelib::Type)
                     el = (@elements[idx] ||= el)
                     el = __element_to_ruby(el)
diff --git a/bindings/ruby/lib/typelib/numeric_type.rb b/bindings/ruby/lib/typelib/numeric_type.rb
index 3b365df..46703e0 100644
--- a/bindings/ruby/lib/typelib/numeric_type.rb
+++ b/bindings/ruby/lib/typelib/numeric_type.rb
@@ -4,6 +4,9 @@ module Typelib
         def self.subclass_initialize
             super
 
+            # Declared convertions take precedence
+            return if convertion_to_ruby
+
             if integer?
                 # This is only a hint for the rest of Typelib. The actual
                 # convertion is done internally by Typelib
-- 
2.43.0


From f08723c938db9c35364365a52a55b0f9da13de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 051/132] fix: values inside the element of a container are
 invalidated when it is set in Ruby

---
 bindings/ruby/lib/typelib/container_type.rb | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index a8b7b19..902790a 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -147,7 +147,13 @@ module Typelib
                     raise ArgumentError, "index out of bounds"
                 end
 
-                do_set(index, value)
+                handle_invalidation do
+                    do_set(index, value)
+                end
+                if element = @elements[index]
+                    element.invalidate_changes_from_converted_types
+                end
+                value
             end
 
             def set(index, value)
-- 
2.43.0


From 8bd862e2cae40e8eafaac00ddc619d00f443e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 052/132] fix: fields accessed by symbols and by strings are
 the same objects in Ruby

---
 bindings/ruby/lib/typelib/compound_type.rb | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 3358886..9e6cea8 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -470,10 +470,11 @@ module Typelib
 
 
         def get(name)
+            name = name.to_s
             if @fields[name]
                 Typelib.to_ruby(@fields[name], @field_types[name])
             else
-                value = typelib_get_field(name.to_s, false)
+                value = typelib_get_field(name, false)
                 if value.kind_of?(Typelib::Type)
                     @fields[name] = value
                     Typelib.to_ruby(value, @field_types[name])
@@ -485,11 +486,12 @@ module Typelib
         end
 
         def raw_get(name)
+            name = name.to_s
             @fields[name] ||= typelib_get_field(name, true)
         end
 
         def raw_get_cached(name)
-            @fields[name]
+            @fields[name.to_s]
         end
 
         def raw_set_field(name, value)
-- 
2.43.0


From c68f4237944cc06017ba742ebadfa3be2a51f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 053/132] fix: zero! and from_buffer in Ruby invalidate what
 gives access to the previous content

---
 bindings/ruby/ext/value.cc        |  2 +-
 bindings/ruby/lib/typelib/type.rb | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ec6f331..a02dd0f 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -709,7 +709,7 @@ void typelib_ruby::Typelib_init_values()
     rb_define_singleton_method(cType, "from_address", RUBY_METHOD_FUNC(&value_from_address), 1);
 
     rb_define_method(cType, "do_from_buffer", RUBY_METHOD_FUNC(&value_do_from_buffer), 5);
-    rb_define_method(cType, "zero!",      RUBY_METHOD_FUNC(&value_zero), 0);
+    rb_define_method(cType, "do_zero",      RUBY_METHOD_FUNC(&value_zero), 0);
     rb_define_method(cType, "memory_eql?",      RUBY_METHOD_FUNC(&value_memory_eql_p), 1);
     rb_define_method(cType, "endian_swap",      RUBY_METHOD_FUNC(&value_endian_swap), 0);
     rb_define_method(cType, "endian_swap!",      RUBY_METHOD_FUNC(&value_endian_swap_b), 0);
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 5b4ea6f..24c2226 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -672,6 +672,7 @@ module Typelib
         # provided mainly for libraries that are unmarshalling a lot of typelib
         # samples, to remove the overhead of option validation
         def from_buffer_direct(string, accept_pointers = false, accept_opaques = false, merge_skip_copy = true, remove_trailing_skips = true)
+            invalidate_changes_from_converted_types
             allocating_operation do
                 do_from_buffer(string,
                                accept_pointers,
@@ -682,6 +683,15 @@ module Typelib
             self
         end
 
+        # Initializes this value to zero
+        #
+        # @return [Type] self
+        def zero!
+            invalidate_changes_from_converted_types
+            allocating_operation { do_zero }
+            self
+        end
+
         # Returns a string whose content is a marshalled representation of the memory
         # hold by +obj+
         #
-- 
2.43.0


From d2a50ffb520f073b1c9f04f566e2189d20b51e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 054/132] fix: changes made to the fields of a field are
 applied in Ruby whatever the way they were accessed

---
 bindings/ruby/lib/typelib/compound_type.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 9e6cea8..b9e2910 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -91,11 +91,11 @@ module Typelib
             def apply_changes_from_converted_types
                 super()
                 self.class.converted_fields.each do |field_name|
+                    if @fields[field_name]
+                        @fields[field_name].apply_changes_from_converted_types
+                    end
                     value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
                     if !value.nil?
-                        if @fields[field_name]
-                            @fields[field_name].apply_changes_from_converted_types
-                        end
                         set_field(field_name, value)
                         instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
                         if value.kind_of?(Array)
-- 
2.43.0


From ebf621166f9c39b1ebd0f81c5599422a0139faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 055/132] fix: compounds that are set from a hash or an array
 in Ruby can be accessed as such

---
 bindings/ruby/lib/typelib/compound_type.rb | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index b9e2910..ce1e099 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -107,13 +107,17 @@ module Typelib
 
             # Once an array has been written to a container, its elements that
             # were giving access to the container's elements might have been
-            # invalidated, or be elements at another position
+            # invalidated, or be elements at another position. Others are the
+            # hashes and arrays compounds have been initialized from
             def update_converted_elements(array, container)
                 array.each_with_index do |el, i|
-                    if el.kind_of?(Array)
-                        update_converted_elements(el, container.raw_get(i))
-                    elsif el.kind_of?(Type) && (el.invalidated? || el.__typelib_parent.equal?(container))
-                        array[i] = container.raw_get(i)
+                    if !container.element_t.needs_convertion_to_ruby?
+                        if !el.kind_of?(Type) || el.invalidated? || el.__typelib_parent.equal?(container)
+                            array[i] = container[i]
+                        end
+                    elsif el.kind_of?(Array)
+                        element = container.raw_get(i)
+                        update_converted_elements(el, element) if element.respond_to?(:element_t)
                     end
                 end
             end
@@ -205,7 +209,11 @@ module Typelib
                         converted_fields.each do |field_name|
                             attr_name = "@#{FIELD_NANE_PREFIX}#{field_name}"
                             define_method("#{field_name}=") do |value|
-                                instance_variable_set(attr_name, value)
+                                if @field_types[field_name].needs_convertion_to_ruby?
+                                    instance_variable_set(attr_name, value)
+                                else
+                                    set(field_name, value)
+                                end
                             end
                             define_method(field_name) do
                                 v = instance_variable_get(attr_name)
-- 
2.43.0


From d29d3eaa7dc564b3cf014129b06451b642af9081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 056/132] fix: memory that was accessed from Ruby can be
 accessed again while the garbage is being collected

---
 bindings/ruby/ext/memory.cc | 110 ++++++++++++++++++++++++------------
 1 file changed, 74 insertions(+), 36 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 1bed435..d54ef7d 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -11,11 +11,19 @@ static VALUE cMemoryZone;
 struct MemoryZone
 {
     void* ptr;
+    uint64_t id;
     MemoryZone(void* ptr)
-        : ptr(ptr) {}
+        : ptr(ptr), id(0) {}
 };
 static st_table* MemoryTable;
 
+/* Map from the IDs of zones to their Ruby objects. It has to be a WeakMap: zones
+ * that are not referenced anymore exist until they are swept, and must not be
+ * used again in the meantime
+ */
+static VALUE MemoryZones;
+static uint64_t MemoryZoneLastID;
+
 /* For those who are wondering, st_data_t is always the size of an void*
  * (see the first lines of st.h
  */
@@ -46,15 +54,11 @@ static struct st_hash_type memory_table_type = {
 struct MemoryTableEntry
 {
     int refcount;
-    VALUE object;
+    MemoryZone* zone;
     bool owned;
     void* root_ptr;
-    MemoryTableEntry(VALUE object, bool owned, void* root_ptr = 0)
-        : refcount(1), object(object), owned(owned), root_ptr(root_ptr)
-    {
-        if (root_ptr && owned)
-            rb_raise(rb_eArgError, "given both a root pointer and owned=true for object %llu", NUM2ULL(rb_obj_id(object)));
-    }
+    MemoryTableEntry(MemoryZone* zone, bool owned, void* root_ptr = 0)
+        : refcount(1), zone(zone), owned(owned), root_ptr(root_ptr) {}
 };
 
 struct RbMemoryLayout
@@ -114,13 +118,35 @@ typelib_ruby::memory_ref(void *ptr)
     }
 }
 
+static MemoryTableEntry*
+memory_entry(void* ptr)
+{
+    MemoryTableEntry* entry = 0;
+    if (!st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry))
+        return 0;
+    return entry;
+}
+
+static void
+memory_zone_release(MemoryZone* zone)
+{
+    // zone->ptr is NULL if the zone has been invalidated
+    void* ptr = zone->ptr;
+    zone->ptr = 0;
+    if (!ptr)
+        return;
+
+    MemoryTableEntry* entry = memory_entry(ptr);
+    if (entry && entry->zone == zone)
+        entry->zone = 0;
+    memory_unref(ptr);
+}
+
 static void
-memory_zone_unref(MemoryZone* ptr)
+memory_zone_unref(MemoryZone* zone)
 {
-    // ptr->ptr is NULL if the zone has been invalidated
-    if (ptr->ptr)
-        memory_unref(ptr->ptr);
-    delete ptr;
+    memory_zone_release(zone);
+    delete zone;
 }
 
 void
@@ -181,41 +207,52 @@ typelib_ruby::memory_delete(void *ptr)
     ruby_xfree(ptr);
 }
 
+static MemoryZone* memory_zone(VALUE ptr);
+
 static VALUE
 memory_aref(void *ptr)
 {
-    MemoryTableEntry* entry;
-    if (!st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry)) {
+    MemoryTableEntry* entry = memory_entry(ptr);
+    if (!entry || !entry->zone)
         return Qnil;
-    }
-    if ((VALUE)entry == Qundef)
-        rb_bug("found undef in memory table");
-
-    return entry->object;
+    return rb_funcall(MemoryZones, rb_intern("[]"), 1, ULL2NUM(entry->zone->id));
 }
 
 static void
 memory_aset(void *ptr, VALUE obj, bool owned, void* root_ptr)
 {
-    if (! NIL_P(memory_aref(ptr)))
-        rb_raise(rb_eArgError, "there is already a wrapper for %p", ptr);
-
     if (ptr == root_ptr)
         rb_raise(rb_eArgError, "pointer and root pointer are equal");
+    if (root_ptr && owned)
+        rb_raise(rb_eArgError, "given both a root pointer and owned=true for %p", ptr);
+    if (root_ptr && !memory_entry(root_ptr))
+        rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
+
+    MemoryZone* zone = memory_zone(obj);
+    MemoryTableEntry* entry = memory_entry(ptr);
+    if (entry && entry->zone && !entry->owned)
+    {
+        // The Ruby object of that zone is dead, and waits for being swept
+        memory_zone_release(entry->zone);
+        entry = memory_entry(ptr);
+    }
 
-    if (!memory_ref(ptr))
+    zone->ptr = ptr;
+    if (entry)
+    {
+        ++(entry->refcount);
+        entry->zone = zone;
+    }
+    else
     {
-        MemoryTableEntry* entry = new MemoryTableEntry(obj, owned, root_ptr);
+        entry = new MemoryTableEntry(zone, owned, root_ptr);
         st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
-
         if (root_ptr)
-        {
-            MemoryTableEntry* root_entry = 0;
-            if (!st_lookup(MemoryTable, (st_data_t)root_ptr, (st_data_t*)&root_entry))
-                rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
-            ++(root_entry->refcount);
-        }
+            memory_ref(root_ptr);
     }
+
+    zone->id = ++MemoryZoneLastID;
+    rb_funcall(MemoryZones, rb_intern("[]="), 2, ULL2NUM(zone->id), obj);
 }
 
 VALUE
@@ -274,7 +311,7 @@ typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
         fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
 #       endif
 
-        zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(ptr));
+        zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(0));
         memory_aset(ptr, zone, take_ownership, root_ptr);
     }
     else
@@ -335,9 +372,7 @@ memory_zone_invalidate(VALUE self)
 #   ifdef VERBOSE
     fprintf(stderr, "invalidating memory zone %p", cptr->ptr);
 #   endif
-    if (cptr->ptr)
-        memory_unref(cptr->ptr);
-    cptr->ptr = 0;
+    memory_zone_release(cptr);
     return Qnil;
 }
 
@@ -365,6 +400,9 @@ void typelib_ruby::Typelib_init_memory()
     MemoryTable     = st_init_table(&memory_table_type);
     VALUE table     = Data_Wrap_Struct(rb_cObject, 0, 0, MemoryTable);
     rb_iv_set(mTypelib, "@__memory_table__", table);
+    VALUE cWeakMap  = rb_const_get(rb_const_get(rb_cObject, rb_intern("ObjectSpace")), rb_intern("WeakMap"));
+    MemoryZones     = rb_class_new_instance(0, 0, cWeakMap);
+    rb_iv_set(mTypelib, "@__memory_zones__", MemoryZones);
 
     cMemoryZone = rb_define_class_under(mTypelib, "MemoryZone", rb_cObject);
     rb_define_method(cMemoryZone, "zone_address", RUBY_METHOD_FUNC(memory_zone_address), 0);
-- 
2.43.0


From 9fb174e85aa3354179fa041e8fb0732519267786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 057/132] fix: converted fields of the elements of containers
 follow the elements in Ruby

---
 bindings/ruby/lib/typelib/container_type.rb | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 902790a..5d9eacd 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -311,6 +311,7 @@ module Typelib
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
+            apply_changes_from_converted_types
             allocating_operation do
                 for v in array
                     do_push(__element_from_ruby(v))
@@ -368,7 +369,7 @@ module Typelib
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
-            handle_invalidation do
+            moving_elements do
                 do_erase(__element_from_ruby(el))
             end
         end
@@ -378,13 +379,22 @@ module Typelib
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
-            handle_invalidation do
+            moving_elements do
                 do_delete_if do |el|
                     yield(__element_to_ruby(el))
                 end
             end
         end
 
+        # Call around operations that move elements from one place of this
+        # container to another
+        def moving_elements(&block)
+            apply_changes_from_converted_types
+            handle_invalidation(&block)
+        ensure
+            invalidate_changes_from_converted_types unless invalidated?
+        end
+
         # True if this container is empty
         def empty?; length == 0 end
 
-- 
2.43.0


From 700243b285a58f7485e46223d6c403e62fc491e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 058/132] fix: removed types exist as long as the values made
 of them from Ruby

---
 bindings/ruby/ext/registry.cc | 18 +++---------------
 bindings/ruby/ext/typelib.hh  | 33 ++++++++++++++++++++++++---------
 bindings/ruby/ext/value.cc    |  4 ++--
 3 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 5c3b167..8eb3128 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -30,16 +30,7 @@ namespace typelib_ruby {
 static
 void registry_free(void* ptr)
 {
-    using cxx2rb::WrapperMap;
-    RbRegistry* rbregistry = reinterpret_cast<RbRegistry*>(ptr);
-    WrapperMap& wrappers = rbregistry->wrappers;
-    for (WrapperMap::iterator it = wrappers.begin(); it != wrappers.end(); ++it)
-    {
-        if (it->second.first)
-            delete it->first;
-    }
-
-    delete rbregistry;
+    delete reinterpret_cast<RbRegistry*>(ptr);
 }
 
 static
@@ -48,7 +39,7 @@ void registry_mark(void* ptr)
     using cxx2rb::WrapperMap;
     WrapperMap const& wrappers = reinterpret_cast<RbRegistry const*>(ptr)->wrappers;
     for (WrapperMap::const_iterator it = wrappers.begin(); it != wrappers.end(); ++it)
-        rb_gc_mark(it->second.second);
+        rb_gc_mark(it->second);
 }
 
 static
@@ -88,15 +79,12 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
     std::set<Type*> deleted = registry.remove(type);
+    rbregistry.removed->insert(deleted.begin(), deleted.end());
 
     VALUE result = rb_ary_new();
     std::set<Type*>::iterator it, end;
     for (it = deleted.begin(); it != deleted.end(); ++it)
-    {
         rb_ary_push(result, cxx2rb::type_wrap(**it, self));
-        cxx2rb::WrapperMap::iterator wrapper_it = rbregistry.wrappers.find(*it);
-        wrapper_it->second.first = true;
-    }
 
     return result;
 }
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index c893879..5ddf303 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -37,25 +37,40 @@ namespace typelib_ruby {
     namespace cxx2rb {
         using namespace Typelib;
 
-        typedef std::map<Type const*, std::pair<bool, VALUE> > WrapperMap;
+        typedef std::map<Type const*, VALUE> WrapperMap;
 
         struct RbRegistry
         {
+            /** The types that have been removed from the registry
+             *
+             * The registry loses ownership of a type through the remove call.
+             * They are deleted with the registry itself, as values of these
+             * types might exist as long as it does
+             */
+            struct RemovedTypes : public std::set<Type*>
+            {
+                ~RemovedTypes()
+                {
+                    for (iterator it = begin(); it != end(); ++it)
+                        delete *it;
+                }
+            };
+            struct Deleter
+            {
+                boost::shared_ptr<RemovedTypes> removed;
+                void operator()(Typelib::Registry* registry) const { delete registry; }
+            };
+
+            boost::shared_ptr<RemovedTypes> removed;
             boost::shared_ptr<Typelib::Registry> registry;
             /** Map that stores the mapping from Type instances to the
              * corresponding Ruby object
-             *
-             * The boolean flag is false if the registry still owns that type,
-             * and true otherwise. The registry loses ownership of a type
-             * through the remove call
-             *
-             * In both cases, they will be deleted only when the registry is
-             * garbage collected.
              */
             cxx2rb::WrapperMap wrappers;
 
             RbRegistry(Typelib::Registry* registry)
-                : registry(registry) {}
+                : removed(new RemovedTypes)
+                , registry(registry, Deleter{removed}) {}
             ~RbRegistry() {}
         };
 
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index a02dd0f..632b835 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -112,7 +112,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
 
     WrapperMap::const_iterator it = wrappers.find(&type);
     if (it != wrappers.end())
-        return it->second.second;
+        return it->second;
 
     VALUE base  = class_of(type);
     VALUE klass = rb_funcall(rb_cClass, rb_intern("new"), 1, base);
@@ -127,7 +127,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
     if (rb_respond_to(klass, rb_intern("subclass_initialize")))
         rb_funcall(klass, rb_intern("subclass_initialize"), 0);
 
-    wrappers.insert(std::make_pair(&type, std::make_pair(false, klass)));
+    wrappers.insert(std::make_pair(&type, klass));
     return klass;
 }
 
-- 
2.43.0


From a674e52a2a4b4e0422cc697bd3fa3e359870c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 059/132] fix: metadata exists as long as it is used from Ruby

---
 bindings/ruby/ext/metadata.cc          | 8 ++++++--
 bindings/ruby/ext/specialized_types.cc | 2 +-
 bindings/ruby/ext/typelib.hh           | 2 +-
 bindings/ruby/ext/value.cc             | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index 1ed511b..70501ea 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -10,9 +10,13 @@ using namespace typelib_ruby;
 VALUE typelib_ruby::cMetaData;
 rb_encoding* enc_utf8;
 
-VALUE cxx2rb::metadata_wrap(MetaData& metadata)
+/* Wraps metadata that belongs to a type of the given registry */
+VALUE cxx2rb::metadata_wrap(MetaData& metadata, VALUE registry)
 {
-    return Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    VALUE result = Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    // The metadata exists as long as the registry does
+    rb_iv_set(result, "@__typelib_registry", registry);
+    return result;
 }
 
 static VALUE metadata_include_p(VALUE self, VALUE key)
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 0dec20d..5c58251 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -33,7 +33,7 @@ static VALUE compound_get_fields(VALUE self)
         rb_ary_store(field_def, 0, field_name);
         rb_ary_store(field_def, 1, INT2FIX(it->getOffset()));
         rb_ary_store(field_def, 2, field_type);
-        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData()));
+        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData(), registry));
         rb_ary_push(fieldlist, field_def);
     }
 
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index 5ddf303..75327ee 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -83,7 +83,7 @@ namespace typelib_ruby {
         template<> inline VALUE class_of<MetaData>() { return cMetaData; }
 
         VALUE type_wrap(Type const& type, VALUE registry);
-        VALUE metadata_wrap(MetaData& metadata);
+        VALUE metadata_wrap(MetaData& metadata, VALUE registry);
 
         /* Get the Ruby symbol associated with a C enum, or nil
          * if the value is not valid for this enum
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 632b835..b246411 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -122,7 +122,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
     rb_iv_set(klass, "@name", rb_str_new2(type.getName().c_str()));
     rb_iv_set(klass, "@null", (type.getCategory() == Type::NullType) ? Qtrue : Qfalse);
     rb_iv_set(klass, "@opaque", (type.getCategory() == Type::Opaque) ? Qtrue : Qfalse);
-    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData()));
+    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData(), registry));
 
     if (rb_respond_to(klass, rb_intern("subclass_initialize")))
         rb_funcall(klass, rb_intern("subclass_initialize"), 0);
-- 
2.43.0


From 0566967e2696e03d2ee076294607fc2deafd1f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 060/132] fix: objects of the elements of a vector are
 invalidated by raw_memcpy in Ruby

---
 bindings/ruby/ext/specialized_types.cc      |  6 ++++--
 bindings/ruby/lib/typelib/container_type.rb | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 5c58251..a2c956a 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -611,7 +611,9 @@ static VALUE vector_contained_memory_id(VALUE self)
 
 /*
  * call-seq:
- *  vector.raw_memcpy(source,size) => nil
+ *  vector.do_raw_memcpy(source,size) => nil
+ *
+ * (see ContainerType::StdVector#raw_memcpy)
  *
  * @param [Integer] source the source raw address
  * @param [Integer] size the number of bytes to be copied
@@ -761,6 +763,6 @@ void typelib_ruby::Typelib_init_specialized_types()
 
     VALUE mVector = rb_define_module_under(cContainer, "StdVector");
     rb_define_method(mVector, "contained_memory_id", RUBY_METHOD_FUNC(vector_contained_memory_id), 0);
-    rb_define_method(mVector, "raw_memcpy", RUBY_METHOD_FUNC(vector_raw_memcpy), 2);
+    rb_define_method(mVector, "do_raw_memcpy", RUBY_METHOD_FUNC(vector_raw_memcpy), 2);
 }
 
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 5d9eacd..bf7ffb8 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -180,6 +180,20 @@ module Typelib
             end
         end
 
+        # Module included in the std::vector containers
+        module StdVector
+            # Replaces the content of this vector by some memory
+            #
+            # @param [Integer] source the source raw address
+            # @param [Integer] size the number of bytes to be copied
+            def raw_memcpy(source, size)
+                handle_invalidation do
+                    do_raw_memcpy(source, size)
+                end
+                nil
+            end
+        end
+
         class DeepCopyArray < Array
             def dup
                 result = DeepCopyArray.new
-- 
2.43.0


From b5972516e101686bbbdd29b06abd297171bcfdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 061/132] fix: C++ exceptions that Ruby methods do not handle
 are raised as Ruby exceptions

---
 bindings/ruby/ext/memory.cc            | 10 ++--
 bindings/ruby/ext/metadata.cc          | 12 ++---
 bindings/ruby/ext/registry.cc          | 56 ++++++++++-----------
 bindings/ruby/ext/specialized_types.cc | 70 +++++++++++++-------------
 bindings/ruby/ext/strings.cc           |  6 +--
 bindings/ruby/ext/typelib.hh           | 18 +++++++
 bindings/ruby/ext/typelib_ruby.cc      |  6 +--
 bindings/ruby/ext/value.cc             | 56 ++++++++++-----------
 8 files changed, 126 insertions(+), 108 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index d54ef7d..0738441 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -405,11 +405,11 @@ void typelib_ruby::Typelib_init_memory()
     rb_iv_set(mTypelib, "@__memory_zones__", MemoryZones);
 
     cMemoryZone = rb_define_class_under(mTypelib, "MemoryZone", rb_cObject);
-    rb_define_method(cMemoryZone, "zone_address", RUBY_METHOD_FUNC(memory_zone_address), 0);
-    rb_define_method(cMemoryZone, "to_ptr", RUBY_METHOD_FUNC(memory_zone_to_ptr), 0);
-    rb_define_method(cMemoryZone, "invalidate", RUBY_METHOD_FUNC(memory_zone_invalidate), 0);
-    rb_define_singleton_method(cMemoryZone, "table_size", RUBY_METHOD_FUNC(memory_zone_table_size), 0);
+    rb_define_method(cMemoryZone, "zone_address", TYPELIB_METHOD_FUNC(memory_zone_address), 0);
+    rb_define_method(cMemoryZone, "to_ptr", TYPELIB_METHOD_FUNC(memory_zone_to_ptr), 0);
+    rb_define_method(cMemoryZone, "invalidate", TYPELIB_METHOD_FUNC(memory_zone_invalidate), 0);
+    rb_define_singleton_method(cMemoryZone, "table_size", TYPELIB_METHOD_FUNC(memory_zone_table_size), 0);
 
-    rb_define_method(rb_cString, "to_memory_ptr", RUBY_METHOD_FUNC(string_to_memory_ptr), 0);
+    rb_define_method(rb_cString, "to_memory_ptr", TYPELIB_METHOD_FUNC(string_to_memory_ptr), 0);
 }
 
diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index 70501ea..664fa73 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -94,12 +94,12 @@ void typelib_ruby::Typelib_init_metadata()
     cMetaData   = rb_define_class_under(mTypelib, "MetaData", rb_cObject);
     rb_define_alloc_func(cMetaData, metadata_alloc);
 
-    rb_define_method(cMetaData, "include?", RUBY_METHOD_FUNC(metadata_include_p), 1);
-    rb_define_method(cMetaData, "get", RUBY_METHOD_FUNC(metadata_get), 1);
-    rb_define_method(cMetaData, "add", RUBY_METHOD_FUNC(metadata_add), -1);
-    rb_define_method(cMetaData, "clear", RUBY_METHOD_FUNC(metadata_clear), -1);
-    rb_define_method(cMetaData, "delete", RUBY_METHOD_FUNC(metadata_clear), -1);
-    rb_define_method(cMetaData, "keys", RUBY_METHOD_FUNC(metadata_keys), 0);
+    rb_define_method(cMetaData, "include?", TYPELIB_METHOD_FUNC(metadata_include_p), 1);
+    rb_define_method(cMetaData, "get", TYPELIB_METHOD_FUNC(metadata_get), 1);
+    rb_define_method(cMetaData, "add", TYPELIB_METHOD_FUNC(metadata_add), -1);
+    rb_define_method(cMetaData, "clear", TYPELIB_METHOD_FUNC(metadata_clear), -1);
+    rb_define_method(cMetaData, "delete", TYPELIB_METHOD_FUNC(metadata_clear), -1);
+    rb_define_method(cMetaData, "keys", TYPELIB_METHOD_FUNC(metadata_keys), 0);
     enc_utf8 = rb_enc_find("utf-8");
 }
 
diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 8eb3128..7ec3fb9 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -698,35 +698,35 @@ void typelib_ruby::Typelib_init_registry()
     cRegistry = rb_define_class_under(mTypelib, "Registry", rb_cObject);
     eNotFound = rb_define_class_under(mTypelib, "NotFound", rb_eRuntimeError);
     rb_define_alloc_func(cRegistry, registry_alloc);
-    rb_define_method(cRegistry, "size", RUBY_METHOD_FUNC(registry_size), 0);
-    rb_define_method(cRegistry, "get", RUBY_METHOD_FUNC(registry_do_get), 1);
-    rb_define_method(cRegistry, "build", RUBY_METHOD_FUNC(registry_do_build), -1);
-    rb_define_method(cRegistry, "each_type", RUBY_METHOD_FUNC(registry_each_type), 2);
+    rb_define_method(cRegistry, "size", TYPELIB_METHOD_FUNC(registry_size), 0);
+    rb_define_method(cRegistry, "get", TYPELIB_METHOD_FUNC(registry_do_get), 1);
+    rb_define_method(cRegistry, "build", TYPELIB_METHOD_FUNC(registry_do_build), -1);
+    rb_define_method(cRegistry, "each_type", TYPELIB_METHOD_FUNC(registry_each_type), 2);
     // do_import is called by the Ruby-defined import, which formats the
     // option hash (if there is one), and can detect the import type by extension
-    rb_define_method(cRegistry, "do_import", RUBY_METHOD_FUNC(registry_import), 4);
-    rb_define_method(cRegistry, "do_export", RUBY_METHOD_FUNC(registry_export), 2);
-    rb_define_method(cRegistry, "merge_xml", RUBY_METHOD_FUNC(registry_merge_xml), 1);
-    rb_define_method(cRegistry, "alias", RUBY_METHOD_FUNC(registry_alias), 2);
-    rb_define_method(cRegistry, "remove_alias", RUBY_METHOD_FUNC(registry_remove_alias), 1);
-    rb_define_method(cRegistry, "clear_aliases", RUBY_METHOD_FUNC(registry_clear_aliases), 0);
-    rb_define_method(cRegistry, "aliases_of", RUBY_METHOD_FUNC(registry_aliases_of), 1);
-    rb_define_method(cRegistry, "merge", RUBY_METHOD_FUNC(registry_merge), 1);
-    rb_define_method(cRegistry, "do_minimal", RUBY_METHOD_FUNC(registry_minimal), 2);
-    rb_define_method(cRegistry, "includes?", RUBY_METHOD_FUNC(registry_includes_p), 1);
-    rb_define_method(cRegistry, "do_resize", RUBY_METHOD_FUNC(registry_resize), 1);
-    rb_define_method(cRegistry, "reverse_depends", RUBY_METHOD_FUNC(registry_reverse_depends), 1);
-    rb_define_method(cRegistry, "remove", RUBY_METHOD_FUNC(registry_remove), 1);
-    rb_define_method(cRegistry, "source_id_of", RUBY_METHOD_FUNC(registry_source_id_of), 1);
-    rb_define_method(cRegistry, "do_create_numeric", RUBY_METHOD_FUNC(registry_do_create_numeric), 3);
-    rb_define_method(cRegistry, "do_create_compound", RUBY_METHOD_FUNC(registry_create_compound), 3);
-    rb_define_method(cRegistry, "do_create_enum", RUBY_METHOD_FUNC(registry_create_enum), 3);
-    rb_define_method(cRegistry, "create_opaque", RUBY_METHOD_FUNC(registry_create_opaque), 2);
-    rb_define_method(cRegistry, "create_null", RUBY_METHOD_FUNC(registry_create_null), 1);
-
-    rb_define_singleton_method(cRegistry, "add_standard_cxx_types", RUBY_METHOD_FUNC(registry_add_standard_cxx_types), 1);
-
-    rb_define_singleton_method(cRegistry, "available_containers", RUBY_METHOD_FUNC(registry_available_container), 0);
-    rb_define_method(cRegistry, "define_container", RUBY_METHOD_FUNC(registry_define_container), 3);
+    rb_define_method(cRegistry, "do_import", TYPELIB_METHOD_FUNC(registry_import), 4);
+    rb_define_method(cRegistry, "do_export", TYPELIB_METHOD_FUNC(registry_export), 2);
+    rb_define_method(cRegistry, "merge_xml", TYPELIB_METHOD_FUNC(registry_merge_xml), 1);
+    rb_define_method(cRegistry, "alias", TYPELIB_METHOD_FUNC(registry_alias), 2);
+    rb_define_method(cRegistry, "remove_alias", TYPELIB_METHOD_FUNC(registry_remove_alias), 1);
+    rb_define_method(cRegistry, "clear_aliases", TYPELIB_METHOD_FUNC(registry_clear_aliases), 0);
+    rb_define_method(cRegistry, "aliases_of", TYPELIB_METHOD_FUNC(registry_aliases_of), 1);
+    rb_define_method(cRegistry, "merge", TYPELIB_METHOD_FUNC(registry_merge), 1);
+    rb_define_method(cRegistry, "do_minimal", TYPELIB_METHOD_FUNC(registry_minimal), 2);
+    rb_define_method(cRegistry, "includes?", TYPELIB_METHOD_FUNC(registry_includes_p), 1);
+    rb_define_method(cRegistry, "do_resize", TYPELIB_METHOD_FUNC(registry_resize), 1);
+    rb_define_method(cRegistry, "reverse_depends", TYPELIB_METHOD_FUNC(registry_reverse_depends), 1);
+    rb_define_method(cRegistry, "remove", TYPELIB_METHOD_FUNC(registry_remove), 1);
+    rb_define_method(cRegistry, "source_id_of", TYPELIB_METHOD_FUNC(registry_source_id_of), 1);
+    rb_define_method(cRegistry, "do_create_numeric", TYPELIB_METHOD_FUNC(registry_do_create_numeric), 3);
+    rb_define_method(cRegistry, "do_create_compound", TYPELIB_METHOD_FUNC(registry_create_compound), 3);
+    rb_define_method(cRegistry, "do_create_enum", TYPELIB_METHOD_FUNC(registry_create_enum), 3);
+    rb_define_method(cRegistry, "create_opaque", TYPELIB_METHOD_FUNC(registry_create_opaque), 2);
+    rb_define_method(cRegistry, "create_null", TYPELIB_METHOD_FUNC(registry_create_null), 1);
+
+    rb_define_singleton_method(cRegistry, "add_standard_cxx_types", TYPELIB_METHOD_FUNC(registry_add_standard_cxx_types), 1);
+
+    rb_define_singleton_method(cRegistry, "available_containers", TYPELIB_METHOD_FUNC(registry_available_container), 0);
+    rb_define_method(cRegistry, "define_container", TYPELIB_METHOD_FUNC(registry_define_container), 3);
 }
 
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index a2c956a..ea39d05 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -712,57 +712,57 @@ void typelib_ruby::Typelib_init_specialized_types()
 {
     VALUE mTypelib  = rb_define_module("Typelib");
     cNumeric   = rb_define_class_under(mTypelib, "NumericType", cType);
-    rb_define_singleton_method(cNumeric, "integer?", RUBY_METHOD_FUNC(numeric_type_integer_p), 0);
-    rb_define_singleton_method(cNumeric, "unsigned?", RUBY_METHOD_FUNC(numeric_type_unsigned_p), 0);
-    rb_define_singleton_method(cNumeric, "size", RUBY_METHOD_FUNC(numeric_type_size), 0);
-    rb_define_singleton_method(cNumeric, "to_ruby", RUBY_METHOD_FUNC(&numeric_to_ruby), 1);
-    rb_define_method(cNumeric, "typelib_from_ruby", RUBY_METHOD_FUNC(&numeric_from_ruby), 1);
+    rb_define_singleton_method(cNumeric, "integer?", TYPELIB_METHOD_FUNC(numeric_type_integer_p), 0);
+    rb_define_singleton_method(cNumeric, "unsigned?", TYPELIB_METHOD_FUNC(numeric_type_unsigned_p), 0);
+    rb_define_singleton_method(cNumeric, "size", TYPELIB_METHOD_FUNC(numeric_type_size), 0);
+    rb_define_singleton_method(cNumeric, "to_ruby", TYPELIB_METHOD_FUNC(numeric_to_ruby), 1);
+    rb_define_method(cNumeric, "typelib_from_ruby", TYPELIB_METHOD_FUNC(numeric_from_ruby), 1);
 
     cOpaque    = rb_define_class_under(mTypelib, "OpaqueType", cType);
     cNull      = rb_define_class_under(mTypelib, "NullType", cType);
 
     cIndirect  = rb_define_class_under(mTypelib, "IndirectType", cType);
-    rb_define_singleton_method(cIndirect, "deference",    RUBY_METHOD_FUNC(indirect_type_deference), 0);
+    rb_define_singleton_method(cIndirect, "deference",    TYPELIB_METHOD_FUNC(indirect_type_deference), 0);
 
     cPointer  = rb_define_class_under(mTypelib, "PointerType", cIndirect);
-    rb_define_method(cPointer, "deference", RUBY_METHOD_FUNC(pointer_deference), 0);
-    rb_define_method(cPointer, "null?", RUBY_METHOD_FUNC(pointer_nil_p), 0);
+    rb_define_method(cPointer, "deference", TYPELIB_METHOD_FUNC(pointer_deference), 0);
+    rb_define_method(cPointer, "null?", TYPELIB_METHOD_FUNC(pointer_nil_p), 0);
 
     cCompound = rb_define_class_under(mTypelib, "CompoundType", cType);
-    rb_define_singleton_method(cCompound, "get_fields",   RUBY_METHOD_FUNC(compound_get_fields), 0);
-    rb_define_method(cCompound, "typelib_get_field", RUBY_METHOD_FUNC(compound_field_get), 2);
-    rb_define_method(cCompound, "typelib_set_field", RUBY_METHOD_FUNC(compound_field_set), 2);
+    rb_define_singleton_method(cCompound, "get_fields",   TYPELIB_METHOD_FUNC(compound_get_fields), 0);
+    rb_define_method(cCompound, "typelib_get_field", TYPELIB_METHOD_FUNC(compound_field_get), 2);
+    rb_define_method(cCompound, "typelib_set_field", TYPELIB_METHOD_FUNC(compound_field_set), 2);
 
     cEnum = rb_define_class_under(mTypelib, "EnumType", cType);
-    rb_define_singleton_method(cEnum, "keys", RUBY_METHOD_FUNC(enum_keys), 0);
-    rb_define_singleton_method(cEnum, "value_of",      RUBY_METHOD_FUNC(enum_value_of), 1);
-    rb_define_singleton_method(cEnum, "name_of",      RUBY_METHOD_FUNC(enum_name_of), 1);
-    rb_define_singleton_method(cEnum, "to_ruby",      RUBY_METHOD_FUNC(&numeric_to_ruby), 1);
-    rb_define_method(cEnum, "typelib_from_ruby",    RUBY_METHOD_FUNC(&numeric_from_ruby), 1);
+    rb_define_singleton_method(cEnum, "keys", TYPELIB_METHOD_FUNC(enum_keys), 0);
+    rb_define_singleton_method(cEnum, "value_of",      TYPELIB_METHOD_FUNC(enum_value_of), 1);
+    rb_define_singleton_method(cEnum, "name_of",      TYPELIB_METHOD_FUNC(enum_name_of), 1);
+    rb_define_singleton_method(cEnum, "to_ruby",      TYPELIB_METHOD_FUNC(numeric_to_ruby), 1);
+    rb_define_method(cEnum, "typelib_from_ruby",    TYPELIB_METHOD_FUNC(numeric_from_ruby), 1);
 
     cArray    = rb_define_class_under(mTypelib, "ArrayType", cIndirect);
-    rb_define_singleton_method(cArray, "length", RUBY_METHOD_FUNC(array_class_length), 0);
-    rb_define_method(cArray, "do_get",  RUBY_METHOD_FUNC(array_get), -1);
-    rb_define_method(cArray, "do_set",  RUBY_METHOD_FUNC(array_set), 2);
-    rb_define_method(cArray, "do_each",    RUBY_METHOD_FUNC(array_do_each), 0);
-    rb_define_method(cArray, "size",    RUBY_METHOD_FUNC(array_size), 0);
+    rb_define_singleton_method(cArray, "length", TYPELIB_METHOD_FUNC(array_class_length), 0);
+    rb_define_method(cArray, "do_get",  TYPELIB_METHOD_FUNC(array_get), -1);
+    rb_define_method(cArray, "do_set",  TYPELIB_METHOD_FUNC(array_set), 2);
+    rb_define_method(cArray, "do_each",    TYPELIB_METHOD_FUNC(array_do_each), 0);
+    rb_define_method(cArray, "size",    TYPELIB_METHOD_FUNC(array_size), 0);
 
     cContainer = rb_define_class_under(mTypelib, "ContainerType", cIndirect);
-    rb_define_singleton_method(cContainer, "container_kind", RUBY_METHOD_FUNC(container_kind), 0);
-    rb_define_singleton_method(cContainer, "natural_size",   RUBY_METHOD_FUNC(container_natural_size), 0);
-    rb_define_singleton_method(cContainer, "random_access?",   RUBY_METHOD_FUNC(container_random_access_p), 0);
-    rb_define_method(cContainer, "length",    RUBY_METHOD_FUNC(container_length), 0);
-    rb_define_method(cContainer, "size",    RUBY_METHOD_FUNC(container_length), 0);
-    rb_define_method(cContainer, "do_clear",    RUBY_METHOD_FUNC(container_clear), 0);
-    rb_define_method(cContainer, "do_push",    RUBY_METHOD_FUNC(container_do_push), 1);
-    rb_define_method(cContainer, "do_get",    RUBY_METHOD_FUNC(container_do_get), 2);
-    rb_define_method(cContainer, "do_set",    RUBY_METHOD_FUNC(container_do_set), 2);
-    rb_define_method(cContainer, "do_each",      RUBY_METHOD_FUNC(container_each), 1);
-    rb_define_method(cContainer, "do_erase",     RUBY_METHOD_FUNC(container_erase), 1);
-    rb_define_method(cContainer, "do_delete_if", RUBY_METHOD_FUNC(container_delete_if), 0);
+    rb_define_singleton_method(cContainer, "container_kind", TYPELIB_METHOD_FUNC(container_kind), 0);
+    rb_define_singleton_method(cContainer, "natural_size",   TYPELIB_METHOD_FUNC(container_natural_size), 0);
+    rb_define_singleton_method(cContainer, "random_access?",   TYPELIB_METHOD_FUNC(container_random_access_p), 0);
+    rb_define_method(cContainer, "length",    TYPELIB_METHOD_FUNC(container_length), 0);
+    rb_define_method(cContainer, "size",    TYPELIB_METHOD_FUNC(container_length), 0);
+    rb_define_method(cContainer, "do_clear",    TYPELIB_METHOD_FUNC(container_clear), 0);
+    rb_define_method(cContainer, "do_push",    TYPELIB_METHOD_FUNC(container_do_push), 1);
+    rb_define_method(cContainer, "do_get",    TYPELIB_METHOD_FUNC(container_do_get), 2);
+    rb_define_method(cContainer, "do_set",    TYPELIB_METHOD_FUNC(container_do_set), 2);
+    rb_define_method(cContainer, "do_each",      TYPELIB_METHOD_FUNC(container_each), 1);
+    rb_define_method(cContainer, "do_erase",     TYPELIB_METHOD_FUNC(container_erase), 1);
+    rb_define_method(cContainer, "do_delete_if", TYPELIB_METHOD_FUNC(container_delete_if), 0);
 
     VALUE mVector = rb_define_module_under(cContainer, "StdVector");
-    rb_define_method(mVector, "contained_memory_id", RUBY_METHOD_FUNC(vector_contained_memory_id), 0);
-    rb_define_method(mVector, "do_raw_memcpy", RUBY_METHOD_FUNC(vector_raw_memcpy), 2);
+    rb_define_method(mVector, "contained_memory_id", TYPELIB_METHOD_FUNC(vector_contained_memory_id), 0);
+    rb_define_method(mVector, "do_raw_memcpy", TYPELIB_METHOD_FUNC(vector_raw_memcpy), 2);
 }
 
diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index f9b2c79..fd4d235 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -108,8 +108,8 @@ static VALUE value_to_string(VALUE mod, VALUE self, VALUE known_good_type)
 
 void typelib_ruby::Typelib_init_strings()
 {
-    rb_define_singleton_method(cType, "to_string",    RUBY_METHOD_FUNC(&value_to_string), 2);
-    rb_define_singleton_method(cType, "from_string",  RUBY_METHOD_FUNC(&value_from_string), 3);
-    rb_define_method(cType, "string_handler?", RUBY_METHOD_FUNC(&value_string_handler_p), 0);
+    rb_define_singleton_method(cType, "to_string",    TYPELIB_METHOD_FUNC(value_to_string), 2);
+    rb_define_singleton_method(cType, "from_string",  TYPELIB_METHOD_FUNC(value_from_string), 3);
+    rb_define_method(cType, "string_handler?", TYPELIB_METHOD_FUNC(value_string_handler_p), 0);
 }
 
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index 75327ee..e9eb635 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -34,6 +34,24 @@ namespace typelib_ruby {
     extern void Typelib_init_registry();
     extern void Typelib_init_metadata();
 
+    /** Ruby methods are defined with this instead of RUBY_METHOD_FUNC, so that
+     * the C++ exceptions they do not handle are raised as Ruby exceptions
+     */
+    template<typename F, F f> struct Method;
+    template<typename... Args, VALUE (*f)(Args...)>
+    struct Method<VALUE (*)(Args...), f>
+    {
+        static VALUE call(Args... args)
+        {
+            VALUE message;
+            try { return f(args...); }
+            catch(std::exception const& e)
+            { message = rb_str_new_cstr(e.what()); }
+            rb_exc_raise(rb_exc_new_str(rb_eRuntimeError, message));
+        }
+    };
+#   define TYPELIB_METHOD_FUNC(f) RUBY_METHOD_FUNC((::typelib_ruby::Method<decltype(&f), &f>::call))
+
     namespace cxx2rb {
         using namespace Typelib;
 
diff --git a/bindings/ruby/ext/typelib_ruby.cc b/bindings/ruby/ext/typelib_ruby.cc
index 3f7c5ee..3e09889 100644
--- a/bindings/ruby/ext/typelib_ruby.cc
+++ b/bindings/ruby/ext/typelib_ruby.cc
@@ -53,9 +53,9 @@ extern "C" void Init_typelib_ruby()
     Typelib_init_memory();
     Typelib_init_metadata();
 
-    rb_define_singleton_method(mTypelib, "big_endian?", RUBY_METHOD_FUNC(typelib_is_big_endian), 0);
+    rb_define_singleton_method(mTypelib, "big_endian?", TYPELIB_METHOD_FUNC(typelib_is_big_endian), 0);
 
-    rb_define_singleton_method(rb_mKernel, "immediate?", RUBY_METHOD_FUNC(kernel_is_immediate), 1);
-    rb_define_singleton_method(rb_mKernel, "numeric?", RUBY_METHOD_FUNC(kernel_is_numeric), 1);
+    rb_define_singleton_method(rb_mKernel, "immediate?", TYPELIB_METHOD_FUNC(kernel_is_immediate), 1);
+    rb_define_singleton_method(rb_mKernel, "numeric?", TYPELIB_METHOD_FUNC(kernel_is_numeric), 1);
 }
 
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index b246411..fdcfdff 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -694,37 +694,37 @@ static VALUE typelib_compare(VALUE, VALUE to, VALUE from)
 void typelib_ruby::Typelib_init_values()
 {
     VALUE mTypelib  = rb_define_module("Typelib");
-    rb_define_singleton_method(mTypelib, "do_copy", RUBY_METHOD_FUNC(typelib_do_copy), 2);
-    rb_define_singleton_method(mTypelib, "do_compare", RUBY_METHOD_FUNC(typelib_compare), 2);
+    rb_define_singleton_method(mTypelib, "do_copy", TYPELIB_METHOD_FUNC(typelib_do_copy), 2);
+    rb_define_singleton_method(mTypelib, "do_compare", TYPELIB_METHOD_FUNC(typelib_compare), 2);
 
     cType     = rb_define_class_under(mTypelib, "Type", rb_cObject);
     rb_define_alloc_func(cType, value_alloc);
-    rb_define_singleton_method(cType, "==",            RUBY_METHOD_FUNC(type_equal_operator), 1);
-    rb_define_singleton_method(cType, "size",          RUBY_METHOD_FUNC(&type_size), 0);
-    rb_define_singleton_method(cType, "do_memory_layout", RUBY_METHOD_FUNC(&type_memory_layout), 4);
-    rb_define_singleton_method(cType, "do_dependencies",  RUBY_METHOD_FUNC(&type_dependencies), 0);
-    rb_define_singleton_method(cType, "casts_to?",     RUBY_METHOD_FUNC(&type_can_cast_to), 1);
-    rb_define_singleton_method(cType, "value_new", RUBY_METHOD_FUNC(&value_new), 1);
-    rb_define_singleton_method(cType, "from_memory_zone", RUBY_METHOD_FUNC(&value_from_memory_zone), 1);
-    rb_define_singleton_method(cType, "from_address", RUBY_METHOD_FUNC(&value_from_address), 1);
-
-    rb_define_method(cType, "do_from_buffer", RUBY_METHOD_FUNC(&value_do_from_buffer), 5);
-    rb_define_method(cType, "do_zero",      RUBY_METHOD_FUNC(&value_zero), 0);
-    rb_define_method(cType, "memory_eql?",      RUBY_METHOD_FUNC(&value_memory_eql_p), 1);
-    rb_define_method(cType, "endian_swap",      RUBY_METHOD_FUNC(&value_endian_swap), 0);
-    rb_define_method(cType, "endian_swap!",      RUBY_METHOD_FUNC(&value_endian_swap_b), 0);
-    rb_define_method(cType, "zone_address", RUBY_METHOD_FUNC(&value_address), 0);
-    rb_define_method(cType, "do_cast", RUBY_METHOD_FUNC(&value_do_cast), 1);
-    rb_define_method(cType, "do_invalidate", RUBY_METHOD_FUNC(&value_invalidate), 0);
-
-    rb_define_singleton_method(mTypelib, "do_basename",  RUBY_METHOD_FUNC(typelib_do_basename), 1);
-    rb_define_singleton_method(mTypelib, "do_namespace", RUBY_METHOD_FUNC(typelib_do_namespace), 1);
-    rb_define_singleton_method(mTypelib, "split_typename", RUBY_METHOD_FUNC(typelib_do_split_name), 1);
-
-    rb_define_singleton_method(cType, "to_csv", RUBY_METHOD_FUNC(type_to_csv), -1);
-    rb_define_method(cType, "to_csv", RUBY_METHOD_FUNC(value_to_csv), -1);
-    rb_define_method(cType, "do_byte_array", RUBY_METHOD_FUNC(value_do_byte_array), 4);
-    rb_define_method(cType, "marshalling_size", RUBY_METHOD_FUNC(value_marshalling_size), 0);
+    rb_define_singleton_method(cType, "==",            TYPELIB_METHOD_FUNC(type_equal_operator), 1);
+    rb_define_singleton_method(cType, "size",          TYPELIB_METHOD_FUNC(type_size), 0);
+    rb_define_singleton_method(cType, "do_memory_layout", TYPELIB_METHOD_FUNC(type_memory_layout), 4);
+    rb_define_singleton_method(cType, "do_dependencies",  TYPELIB_METHOD_FUNC(type_dependencies), 0);
+    rb_define_singleton_method(cType, "casts_to?",     TYPELIB_METHOD_FUNC(type_can_cast_to), 1);
+    rb_define_singleton_method(cType, "value_new", TYPELIB_METHOD_FUNC(value_new), 1);
+    rb_define_singleton_method(cType, "from_memory_zone", TYPELIB_METHOD_FUNC(value_from_memory_zone), 1);
+    rb_define_singleton_method(cType, "from_address", TYPELIB_METHOD_FUNC(value_from_address), 1);
+
+    rb_define_method(cType, "do_from_buffer", TYPELIB_METHOD_FUNC(value_do_from_buffer), 5);
+    rb_define_method(cType, "do_zero",      TYPELIB_METHOD_FUNC(value_zero), 0);
+    rb_define_method(cType, "memory_eql?",      TYPELIB_METHOD_FUNC(value_memory_eql_p), 1);
+    rb_define_method(cType, "endian_swap",      TYPELIB_METHOD_FUNC(value_endian_swap), 0);
+    rb_define_method(cType, "endian_swap!",      TYPELIB_METHOD_FUNC(value_endian_swap_b), 0);
+    rb_define_method(cType, "zone_address", TYPELIB_METHOD_FUNC(value_address), 0);
+    rb_define_method(cType, "do_cast", TYPELIB_METHOD_FUNC(value_do_cast), 1);
+    rb_define_method(cType, "do_invalidate", TYPELIB_METHOD_FUNC(value_invalidate), 0);
+
+    rb_define_singleton_method(mTypelib, "do_basename",  TYPELIB_METHOD_FUNC(typelib_do_basename), 1);
+    rb_define_singleton_method(mTypelib, "do_namespace", TYPELIB_METHOD_FUNC(typelib_do_namespace), 1);
+    rb_define_singleton_method(mTypelib, "split_typename", TYPELIB_METHOD_FUNC(typelib_do_split_name), 1);
+
+    rb_define_singleton_method(cType, "to_csv", TYPELIB_METHOD_FUNC(type_to_csv), -1);
+    rb_define_method(cType, "to_csv", TYPELIB_METHOD_FUNC(value_to_csv), -1);
+    rb_define_method(cType, "do_byte_array", TYPELIB_METHOD_FUNC(value_do_byte_array), 4);
+    rb_define_method(cType, "marshalling_size", TYPELIB_METHOD_FUNC(value_marshalling_size), 0);
 
     Typelib_init_specialized_types();
 }
-- 
2.43.0


From ebcf4e9e030e82d7a69fc11ff0805e6460cfed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 062/132] fix: compounds created from Ruby cannot refer to
 types of other registries

---
 bindings/ruby/ext/registry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 7ec3fb9..d2f3d42 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -590,6 +590,8 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
         VALUE rb_name = rb_ary_entry(field, 0);
         std::string field_name(StringValuePtr(rb_name));
         Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
+        if (!reg.isIncluded(field_type))
+            rb_raise(rb_eArgError, "the type of field %s comes from a different type registry", field_name.c_str());
         int offset(NUM2INT(rb_ary_entry(field, 2)));
         new_t->addField(field_name, field_type, offset);
     }
-- 
2.43.0


From e338f37e9da465daba4e7113c0aa130103aa3cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 063/132] fix: sizes and offsets that types cannot have are
 refused when types are created from Ruby

---
 bindings/ruby/ext/registry.cc | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index d2f3d42..78a0d85 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -164,6 +164,15 @@ VALUE registry_do_build(int argc, VALUE* argv, VALUE self)
 }
 
 
+/* Converts the size of a type or the offset of a field */
+static size_t to_size(VALUE value)
+{
+    int size = NUM2INT(value);
+    if (size < 0)
+        rb_raise(rb_eArgError, "expected a size or an offset, got %i", size);
+    return size;
+}
+
 /* call-seq:
  *  alias(new_name, name)           => self
  *
@@ -317,7 +326,7 @@ VALUE registry_resize(VALUE self, VALUE new_sizes)
         VALUE* pair = RARRAY_PTR(map_values[i]);
         sizes.insert(std::make_pair(
                 StringValuePtr(pair[0]),
-                NUM2INT(pair[1])));
+                to_size(pair[1])));
     }
     try {
         registry.resize(sizes);
@@ -545,8 +554,8 @@ static VALUE registry_define_container(VALUE registry, VALUE kind, VALUE element
         rb_raise(rb_eArgError, "the given type object comes from a different type registry");
 
     try {
+        size_t size = to_size(_size);
         Container const& new_type = Container::createContainer(reg, StringValuePtr(kind), element_type);
-        size_t size = NUM2INT(_size);
         if (size != 0)
             reg.get_(new_type).setSize(size);
         return cxx2rb::type_wrap(new_type, registry);
@@ -592,14 +601,18 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
         Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
         if (!reg.isIncluded(field_type))
             rb_raise(rb_eArgError, "the type of field %s comes from a different type registry", field_name.c_str());
-        int offset(NUM2INT(rb_ary_entry(field, 2)));
+        size_t offset(to_size(rb_ary_entry(field, 2)));
         new_t->addField(field_name, field_type, offset);
     }
 
-    Typelib::Compound* type = new_t.release();
-    size_t size = NUM2INT(_size);
+    size_t size = to_size(_size);
     if (size != 0)
-        type->setSize(size);
+    {
+        if (size < new_t->getSize())
+            rb_raise(rb_eArgError, "the fields of %s do not fit in %i bytes", new_t->getName().c_str(), static_cast<int>(size));
+        new_t->setSize(size);
+    }
+    Typelib::Compound* type = new_t.release();
     try { reg.add(type, true, ""); }
     catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
     return cxx2rb::type_wrap(*type, registry);
@@ -628,9 +641,9 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
         new_t->add(sym_name, sym_value);
     }
 
+    size_t size = to_size(_size);
+    if (size != 0) new_t->setSize(size);
     Typelib::Enum* type = new_t.release();
-    size_t size = NUM2INT(_size);
-    if (size != 0) type->setSize(size);
     try { reg.add(type, true, ""); }
     catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
     return cxx2rb::type_wrap(*type, registry);
@@ -645,7 +658,7 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
 static VALUE registry_create_opaque(VALUE registry, VALUE _name, VALUE _size)
 {
     Registry& reg = rb2cxx::object<Registry>(registry);
-    Typelib::Type* type = new Typelib::OpaqueType(StringValuePtr(_name), NUM2INT(_size));
+    Typelib::Type* type = new Typelib::OpaqueType(StringValuePtr(_name), to_size(_size));
     try { reg.add(type, true, ""); }
     catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
     return cxx2rb::type_wrap(*type, registry);
@@ -673,7 +686,7 @@ static VALUE registry_do_create_numeric(VALUE registry, VALUE _name, VALUE _size
         typelib_category = Typelib::Numeric::Float;
     else rb_raise(rb_eArgError, "invalid mode %i, accepted modes are 0 (for SInt), 1 (for UInt) and 2 (for Float)", category);
 
-    Typelib::Type* type = new Typelib::Numeric(StringValuePtr(_name), NUM2INT(_size), typelib_category);
+    Typelib::Type* type = new Typelib::Numeric(StringValuePtr(_name), to_size(_size), typelib_category);
     try { reg.add(type, true, ""); }
     catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
     return cxx2rb::type_wrap(*type, registry);
-- 
2.43.0


From 915cb110cea1c6d654b6b3e12ef0ac647409139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 064/132] fix: values that were invalidated from Ruby are
 refused instead of being accessed

---
 bindings/ruby/ext/specialized_types.cc |  2 +-
 bindings/ruby/ext/typelib.hh           | 10 ++++++++++
 bindings/ruby/ext/value.cc             | 10 +++++-----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index ea39d05..f14899d 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -44,7 +44,7 @@ static VALUE compound_get_fields(VALUE self)
 static VALUE compound_field_get(VALUE rbvalue, VALUE name, VALUE raw)
 {
     VALUE registry = value_get_registry(rbvalue);
-    Value value = rb2cxx::object<Value>(rbvalue);
+    Value value = rb2cxx::get_wrapped<Value>(rbvalue);
     if (! value.getData())
         return Qnil;
 
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index e9eb635..905b2b1 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -142,6 +142,16 @@ namespace typelib_ruby {
             return get_wrapped<T>(self);
         }
 
+        /* Values lose their data when they are invalidated */
+        template<> inline Value& object(VALUE self)
+        {
+            check_is_kind_of(self, cxx2rb::class_of<Value>());
+            Value& value = get_wrapped<Value>(self);
+            if (!value.getData())
+                rb_raise(rb_eTypeError, "invalidated object");
+            return value;
+        }
+
         template<> inline Registry& object(VALUE self)
         {
             return *object<cxx2rb::RbRegistry>(self).registry;
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index fdcfdff..32534be 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -28,7 +28,7 @@ void* value_root_ptr(VALUE value)
     }
     if (RTEST(parent))
     {
-        Value v = rb2cxx::object<Value>(parent);
+        Value v = rb2cxx::get_wrapped<Value>(parent);
         return v.getData();
     }
     else return NULL;
@@ -426,7 +426,7 @@ static
 VALUE value_from_memory_zone(VALUE klass, VALUE ptr)
 {
     VALUE result = value_create_empty(klass);
-    Value& value  = rb2cxx::object<Value>(result);
+    Value& value  = rb2cxx::get_wrapped<Value>(result);
 
     // Protect the memory zone against GC until we don't need it anymore
     rb_iv_set(result, "@ptr", ptr);
@@ -487,7 +487,7 @@ static
 VALUE value_from_address(VALUE klass, VALUE address)
 {
     VALUE result = value_create_empty(klass);
-    Value& value  = rb2cxx::object<Value>(result);
+    Value& value  = rb2cxx::get_wrapped<Value>(result);
     value = Value(reinterpret_cast<void*>(NUM2ULL(address)), value.getType());
     rb_iv_set(result, "@ptr", memory_wrap(value.getData(), false, NULL));
     value_call_typelib_initialize(result);
@@ -501,7 +501,7 @@ VALUE value_from_address(VALUE klass, VALUE address)
 static
 VALUE value_address(VALUE self)
 {
-    Value value = rb2cxx::object<Value>(self);
+    Value value = rb2cxx::get_wrapped<Value>(self);
     return LONG2NUM((long)value.getData());
 }
 
@@ -564,7 +564,7 @@ VALUE value_invalidate(VALUE self)
     if (NIL_P(rb_iv_get(self, "@parent")))
         rb_raise(rb_eArgError, "cannot invalidate a toplevel value");
 
-    Value& value = rb2cxx::object<Value>(self);
+    Value& value = rb2cxx::get_wrapped<Value>(self);
 #ifdef VERBOSE
     fprintf(stderr, "invalidating %llu, ptr=%p\n", NUM2ULL(rb_obj_id(self)), value.getData());
 #endif
-- 
2.43.0


From 36c369916c7366d6a571672a2532c087c8033110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 065/132] fix: values of different sizes are not compared
 beyond the end of the smaller one in Ruby

---
 bindings/ruby/ext/value.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 32534be..7df4466 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -609,6 +609,8 @@ VALUE value_memory_eql_p(VALUE rbself, VALUE rbwith)
 
     // Type#== checks for type equality before calling memory_equal?
     Type const& type = self.getType();
+    if (type.getSize() != with.getType().getSize())
+        return Qfalse;
     return memcmp(self.getData(), with.getData(), type.getSize()) == 0 ? Qtrue : Qfalse;
 }
 
-- 
2.43.0


From 069a455cd2f739e031a593e2c71c8a53705ef696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 066/132] fix: strings are not written before arrays without
 characters from Ruby

---
 bindings/ruby/ext/strings.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index fd4d235..1e82a10 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -66,7 +66,7 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     string_buffer_get(value, buffer, buffer_size);
 
     string::size_type from_length = RSTRING_LEN(StringValue(from));
-    if ((buffer_size - 1) < from_length)
+    if (buffer_size <= from_length)
         rb_raise(rb_eArgError, "array to small: %lu, while %lu was needed", buffer_size, from_length + 1);
 
     strncpy(buffer, StringValueCStr(from), buffer_size);
-- 
2.43.0


From d7d1f1499eddc716b487629a0b2210574049a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 067/132] fix: strings are not written through uninitialized
 pointers, and null strings are converted to nil in Ruby

---
 bindings/ruby/lib/typelib/standard_convertions.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/standard_convertions.rb b/bindings/ruby/lib/typelib/standard_convertions.rb
index 4b26d59..f3bb996 100644
--- a/bindings/ruby/lib/typelib/standard_convertions.rb
+++ b/bindings/ruby/lib/typelib/standard_convertions.rb
@@ -98,11 +98,11 @@ module Typelib
         end
     end
     convert_from_ruby String, "#{CHAR_T.name}*" do |value, typelib_type|
-        result = typelib_type.new
-        Type::from_string(result, value, true)
-        result
+        # The pointer does not designate memory to write to
+        raise TypeError, "Ruby strings can only be converted to char arrays"
     end
     convert_to_ruby "#{CHAR_T.name}*", String do |value|
+        next if value.null?
         value = Type::to_string(value, true)
         if value.respond_to?(:force_encoding)
             value.force_encoding('ASCII')
-- 
2.43.0


From 82990948e0512f4cb0ebbc0f7568bdd33250b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 068/132] fix: methods of the base classes of the types raise
 in Ruby when they are called on the base classes themselves

---
 bindings/ruby/ext/specialized_types.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index f14899d..878d094 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -138,7 +138,7 @@ VALUE enum_keys(VALUE self)
     if (self == cEnum)
         return rb_hash_new();
 
-    Enum const& type = static_cast<Enum const&>(rb2cxx::object<Type>(self));
+    Enum const& type = dynamic_cast<Enum const&>(rb2cxx::object<Type>(self));
 
     VALUE keys = rb_iv_get(self, "@values");
     if (!NIL_P(keys))
@@ -161,7 +161,7 @@ VALUE enum_keys(VALUE self)
  */
 static VALUE enum_value_of(VALUE self, VALUE name)
 {
-    Enum const& type = static_cast<Enum const&>(rb2cxx::object<Type>(self));
+    Enum const& type = dynamic_cast<Enum const&>(rb2cxx::object<Type>(self));
 
     try {
         int value = type.get(StringValuePtr(name));
@@ -179,7 +179,7 @@ static VALUE enum_value_of(VALUE self, VALUE name)
  */
 static VALUE enum_name_of(VALUE self, VALUE integer)
 {
-    Enum const& type = static_cast<Enum const&>(rb2cxx::object<Type>(self));
+    Enum const& type = dynamic_cast<Enum const&>(rb2cxx::object<Type>(self));
 
     try {
         std::string name = type.get(NUM2INT(integer));
@@ -202,7 +202,7 @@ static VALUE indirect_type_deference(VALUE self)
 {
     VALUE registry = type_get_registry(self);
     Type const& type(rb2cxx::object<Type>(self));
-    Indirect const& indirect(static_cast<Indirect const&>(type));
+    Indirect const& indirect(dynamic_cast<Indirect const&>(type));
     return cxx2rb::type_wrap(indirect.getIndirection(), registry);
 }
 
-- 
2.43.0


From 182f2e199255686d6c3fe573f84c4038cfbef4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 069/132] fix: empty arrays do not contain themselves in Ruby

---
 bindings/ruby/ext/specialized_types.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 878d094..292e716 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -237,8 +237,6 @@ static VALUE array_get(int argc, VALUE* argv, VALUE self)
 {
     Value& value            = rb2cxx::object<Value>(self);
     Array const& array      = static_cast<Array const&>(value.getType());
-    if (array.getDimension() == 0)
-        return self;
 
     Type  const& array_type = array.getIndirection();
     VALUE registry          = value_get_registry(self);
-- 
2.43.0


From 26e62dd8d75cad8d4297c6fb0dff7c82cf239b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 070/132] fix: released memory is not accessed when containers
 are modified while they are iterated, or filled with their own elements

---
 bindings/ruby/ext/specialized_types.cc      |  7 ++++++-
 bindings/ruby/lib/typelib/container_type.rb |  6 ++++++
 lang/csupport/containers.cc                 | 20 +++++++++++---------
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 292e716..6faa3db 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -531,6 +531,8 @@ struct ContainerIterator : public ValueVisitor
             rb_yield(cxx2rb::value_wrap(v, m_registry, m_parent));
         else
             rb_yield(typelib_to_ruby(v, m_registry, m_parent));
+        // The block might have released the container, raise in this case
+        rb2cxx::object<Value>(m_parent);
     }
 };
 
@@ -573,7 +575,10 @@ static VALUE container_erase(VALUE self, VALUE obj)
 bool container_delete_if_i(Value v, VALUE registry, VALUE container)
 {
     VALUE rb_v = cxx2rb::value_wrap(v, registry, container);
-    return RTEST(rb_yield(rb_v));
+    bool result = RTEST(rb_yield(rb_v));
+    // The block might have released the container, raise in this case
+    rb2cxx::object<Value>(container);
+    return result;
 }
 
 /*
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index bf7ffb8..75f5fda 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -168,6 +168,8 @@ module Typelib
             def raw_each
                 return enum_for(:raw_each) if !block_given?
                 for idx in 0...size
+                    # The block might remove elements
+                    break if idx >= size
                     yield(raw_get_no_boundary_check(idx))
                 end
             end
@@ -175,6 +177,8 @@ module Typelib
             def each
                 return enum_for(:each) if !block_given?
                 for idx in 0...size
+                    # The block might remove elements
+                    break if idx >= size
                     yield(get_no_boundary_check(idx))
                 end
             end
@@ -326,6 +330,8 @@ module Typelib
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
             apply_changes_from_converted_types
+            # The elements of this container move when it grows
+            array = array.map { |v| v.kind_of?(Type) && v.__typelib_parent.equal?(self) ? v.dup : v }
             allocating_operation do
                 for v in array
                     do_push(__element_from_ruby(v))
diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 4e8ce94..f5fcad8 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -283,13 +283,13 @@ bool Vector::visit(void* ptr, ValueVisitor& visitor) const
 {
     std::vector<uint8_t>* vector_ptr =
         reinterpret_cast< std::vector<uint8_t>* >(ptr);
-    uint8_t* base = &(*vector_ptr)[0];
     size_t   element_size  = getIndirection().getSize();
     size_t   element_count = getElementCount(vector_ptr);
     const Type &indirect(getIndirection());
 
-    for (size_t i = 0; i < element_count; ++i)
-        visitor.dispatch(Value(base + i * element_size, indirect));
+    // The visitor might modify the container
+    for (size_t i = 0; i < element_count && i < getElementCount(vector_ptr); ++i)
+        visitor.dispatch(Value(&(*vector_ptr)[i * element_size], indirect));
 
     return true;
 }
@@ -303,13 +303,15 @@ void Vector::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
     Type const&  element_t = getIndirection();
     size_t   element_size  = element_t.getSize();
 
-    uint8_t* base = &(*vector_ptr)[0];
-    for (size_t i = 0; i < element_count; )
+    // The predicate might modify the container
+    for (size_t i = 0; i < element_count && i < getElementCount(vector_ptr); )
     {
-        uint8_t* element_ptr = base + i * element_size;
+        uint8_t* element_ptr = &(*vector_ptr)[i * element_size];
         Value    element_v(element_ptr, element_t);
         if (pred.should_delete(element_v))
         {
+            if (i >= getElementCount(vector_ptr))
+                break;
             erase(vector_ptr, i);
             element_count--;
         }
@@ -481,11 +483,11 @@ bool String::visit(void* ptr, ValueVisitor& visitor) const
 {
     std::string* string_ptr =
         reinterpret_cast< std::string* >(ptr);
-    char* base = const_cast<char*>(string_ptr->c_str());
     size_t   element_count = string_ptr->length();
 
-    for (size_t i = 0; i < element_count; ++i)
-        visitor.dispatch(Value(base + i, getIndirection()));
+    // The visitor might modify the string
+    for (size_t i = 0; i < element_count && i < string_ptr->length(); ++i)
+        visitor.dispatch(Value(&(*string_ptr)[i], getIndirection()));
 
     return true;
 }
-- 
2.43.0


From 9c5ec8a4a986b0deb223b060ac71e71627e73acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 071/132] fix: values that are not strings are not converted as
 if they were in Ruby

---
 bindings/ruby/ext/strings.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index 1e82a10..b4a8c24 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -32,6 +32,8 @@ static void string_buffer_get(Value const& value, char*& buffer, string::size_ty
         buffer = reinterpret_cast<char*>(value.getData());
         size = static_cast<Array const&>(type).getDimension();
     }
+    else if (type.getCategory() != Type::Pointer)
+        rb_raise(rb_eTypeError, "values of type %s are not strings", type.getName().c_str());
     else
     {
         buffer = *reinterpret_cast<char**>(value.getData());
-- 
2.43.0


From fac7a477ba1b5536c4c572fb3751009ee72e52ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:00 +0000
Subject: [PATCH 072/132] fix: types cannot be removed from registries that do
 not have them from Ruby

---
 bindings/ruby/ext/registry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 78a0d85..94e9f29 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -78,6 +78,8 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     RbRegistry& rbregistry = rb2cxx::object<RbRegistry>(self);
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    if (!registry.isIncluded(type))
+        rb_raise(rb_eArgError, "the type %s is not in this type registry", type.getName().c_str());
     std::set<Type*> deleted = registry.remove(type);
     rbregistry.removed->insert(deleted.begin(), deleted.end());
 
-- 
2.43.0


From 90202cd9b61b69d90c6e33be552343998ea3472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 073/132] fix: write pending converted changes before to_csv,
 marshalling_size and endian_swap

---
 bindings/ruby/ext/value.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 7df4466..d3501d8 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -505,6 +505,14 @@ VALUE value_address(VALUE self)
     return LONG2NUM((long)value.getData());
 }
 
+/* Writes to the memory of a value the changes that have been made to what it
+ * has been converted to
+ */
+static void value_apply_changes(VALUE self)
+{
+    rb_funcall(self, rb_intern("apply_changes_from_converted_types"), 0);
+}
+
 /* @overload endian_swap
  *
  * Creates a new value with an endianness opposite of the one of self
@@ -515,6 +523,7 @@ VALUE value_address(VALUE self)
 static
 VALUE value_endian_swap(VALUE self)
 {
+    value_apply_changes(self);
     Value& value = rb2cxx::object<Value>(self);
     CompileEndianSwapVisitor compiled;
     compiled.apply(value.getType());
@@ -535,8 +544,10 @@ VALUE value_endian_swap(VALUE self)
 static
 VALUE value_endian_swap_b(VALUE self, VALUE rb_compile)
 {
+    value_apply_changes(self);
     Value& value = rb2cxx::object<Value>(self);
     endian_swap(value);
+    rb_funcall(self, rb_intern("invalidate_changes_from_converted_types"), 0);
     return self;
 }
 
@@ -593,6 +604,7 @@ VALUE value_do_byte_array(VALUE self, VALUE pointers, VALUE opaques, VALUE merge
 static
 VALUE value_marshalling_size(VALUE self)
 {
+    value_apply_changes(self);
     Value& value = rb2cxx::object<Value>(self);
     try { return INT2NUM(Typelib::getDumpSize(value)); }
     catch(Typelib::NoLayout const&)
@@ -632,6 +644,7 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
     VALUE separator = Qnil;
     rb_scan_args(argc, argv, "01", &separator);
 
+    value_apply_changes(self);
     Value const& value(rb2cxx::object<Value>(self));
     std::string sep = " ";
     if (!NIL_P(separator)) sep = StringValuePtr(separator);
-- 
2.43.0


From dfacba9995eaf778ed32de65b486d988c12aa799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:59 +0000
Subject: [PATCH 074/132] fix: registries could not be exported to plain
 modules

---
 bindings/ruby/lib/typelib/registry.rb        |  6 ++++-
 bindings/ruby/lib/typelib/registry_export.rb | 24 +++++++++++---------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 9fd8630..3c80a57 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -108,7 +108,11 @@ module Typelib
         # Export this registry in the Ruby namespace. The base namespace under
         # which it should be done is given in +base_module+
         def export_to_ruby(base_module, options = Hash.new, &block)
-            base_module.extend RegistryExport
+            if base_module.respond_to?(:registry)
+                base_module.extend RegistryExport
+            else
+                base_module.extend RegistryExport::WithRegistry
+            end
             base_module.reset_registry_export(self, block, '/')
         end
 
diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 2e709fb..ea5e657 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -55,6 +55,18 @@ module Typelib
                                   "#{mod.__typelib_registry_export_typename_prefix}#{name}/")
         end
 
+        # Registry export on objects that do not refer to a registry themselves
+        module WithRegistry
+            include RegistryExport
+
+            attr_reader :registry
+
+            def reset_registry_export(registry = self.registry, *args)
+                @registry = registry
+                super
+            end
+        end
+
         def disable_registry_export
             reset_registry_export(nil, nil)
         end
@@ -130,17 +142,7 @@ module Typelib
 
         def RegistryExportDelegate(ruby_class)
             klass = DelegateClass(ruby_class.singleton_class).new(ruby_class)
-            m = Module.new do
-                include RegistryExport
-
-                attr_reader :registry
-
-                def reset_registry_export(registry = self.registry, *args)
-                    @registry = registry
-                    super
-                end
-            end
-            klass.extend m
+            klass.extend WithRegistry
             klass
         end
 
-- 
2.43.0


From 3ce4e6fed60d00ceed783bd44539eda311f5b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:59 +0000
Subject: [PATCH 075/132] fix: types were only found by similar names in the
 first namespace looked into

---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index ea5e657..9a1cb4d 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -131,7 +131,7 @@ module Typelib
             # Try harder ... for weird naming conventions ... but that's costly
             template_args = template_args_to_typelib(args)
             registry.each(typename_prefix) do |type|
-                if type.name =~ /^#{Regexp.quote(typename_prefix)}[^\/]+$/o
+                if type.name =~ /^#{Regexp.quote(typename_prefix)}[^\/]+$/
                     if type.basename.snakecase == "#{m.to_s.snakecase}#{template_args}"
                         return type
                     end
-- 
2.43.0


From 70ee47441112ff2bba7a159bda30c052dc6f776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:59 +0000
Subject: [PATCH 076/132] fix: the last namespace was found under the name of
 the module the registry is exported to

---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 9a1cb4d..a48d3a6 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -185,7 +185,7 @@ module Typelib
             elsif basename = RegistryExport.find_namespace(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)
                 ns = Namespace.new
                 ns.initialize_registry_export(self, basename)
-                @__typelib_registry_export_cache[[name, []]] = ns
+                ns
             end
         end
 
-- 
2.43.0


From d76ed029c3f2547867d866ff93db28a30e9771a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 077/132] fix: namespaces which only contain aliases could not
 be accessed once exported

---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index a48d3a6..944e30d 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -98,7 +98,7 @@ module Typelib
 
         def self.find_namespace(relaxed_naming, typename_prefix, registry, m, *args)
             each_candidate_name(relaxed_naming, m, *args) do |basename|
-                if registry.each("#{typename_prefix}#{basename}/").first
+                if registry.each("#{typename_prefix}#{basename}/", with_aliases: true).first
                     return basename
                 end
             end
-- 
2.43.0


From 7779416fde54e190e9b8f4ac477a475367e7446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 078/132] fix: types inside an exported type were lost once it
 was accessed by an alias

---
 bindings/ruby/lib/typelib/registry_export.rb | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 944e30d..be56b7c 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -52,7 +52,7 @@ module Typelib
         def initialize_registry_export(mod, name)
             reset_registry_export(mod.registry,
                                   mod.__typelib_registry_export_filter_block,
-                                  "#{mod.__typelib_registry_export_typename_prefix}#{name}/")
+                                  "#{name}/")
         end
 
         # Registry export on objects that do not refer to a registry themselves
@@ -146,13 +146,13 @@ module Typelib
             klass
         end
 
-        def setup_export_type(type, basename)
+        def setup_export_type(type, name)
             if type <= Type
                 type.extend RegistryExport
             else
                 type = RegistryExportDelegate(type)
             end
-            type.initialize_registry_export(self, basename)
+            type.initialize_registry_export(self, name)
             type
         end
 
@@ -181,10 +181,10 @@ module Typelib
                             end
                     end
                 end
-                @__typelib_registry_export_cache[[m, args]] = setup_export_type(exported_type, type.basename)
+                @__typelib_registry_export_cache[[m, args]] = setup_export_type(exported_type, type.name)
             elsif basename = RegistryExport.find_namespace(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)
                 ns = Namespace.new
-                ns.initialize_registry_export(self, basename)
+                ns.initialize_registry_export(self, "#{@__typelib_registry_export_typename_prefix}#{basename}")
                 ns
             end
         end
-- 
2.43.0


From 2c4c582e1ec4f6e9b82c79e89d63a50f10555cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 079/132] fix: exported types were not replaced by the type the
 filter returned if its structure was the same

---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index be56b7c..3a27e6e 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -173,7 +173,7 @@ module Typelib
                     if filtered_type.respond_to?(:registry) && filtered_type.registry != registry
                         raise RuntimeError, "filter block #{filter_block} returned #{filtered_type} which is a type from #{filtered_type.registry} but I was expecting #{registry}"
                     end
-                    if filtered_type != exported_type
+                    if !filtered_type.equal?(exported_type)
                         exported_type =
                             if filtered_type.respond_to?(:convertion_to_ruby) && filtered_type.convertion_to_ruby
                                 filtered_type.convertion_to_ruby[0] || filtered_type
-- 
2.43.0


From 1876557730dcd85ba441bb588260c8b16c182c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 080/132] fix: types refused by the filter raised NoMethodError
 when accessed as constants

---
 bindings/ruby/lib/typelib/registry_export.rb | 47 +++++++++++---------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 3a27e6e..a34c400 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -156,31 +156,36 @@ module Typelib
             type
         end
 
+        # What a type is exported as, nil if the filter block refuses it
+        def resolve_exported_type(type)
+            exported_type =
+                if type.convertion_to_ruby
+                    type.convertion_to_ruby[0] || type
+                else
+                    type
+                end
+
+            if filter_block = @__typelib_registry_export_filter_block
+                filtered_type = filter_block.call(type, exported_type)
+                if filtered_type.respond_to?(:registry) && filtered_type.registry != registry
+                    raise RuntimeError, "filter block #{filter_block} returned #{filtered_type} which is a type from #{filtered_type.registry} but I was expecting #{registry}"
+                end
+                if !filtered_type.equal?(exported_type)
+                    exported_type =
+                        if filtered_type.respond_to?(:convertion_to_ruby) && filtered_type.convertion_to_ruby
+                            filtered_type.convertion_to_ruby[0] || filtered_type
+                        else filtered_type
+                        end
+                end
+            end
+            exported_type
+        end
+
         def resolve_call_from_exported_registry(relaxed_naming, m, *args)
             @__typelib_registry_export_cache ||= Hash.new
             if type = @__typelib_registry_export_cache[[m, args]]
                 return type
-            elsif type = RegistryExport.find_type(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)
-                exported_type =
-                    if type.convertion_to_ruby
-                        type.convertion_to_ruby[0] || type
-                    else
-                        type
-                    end
-
-                if filter_block = @__typelib_registry_export_filter_block
-                    filtered_type = filter_block.call(type, exported_type)
-                    if filtered_type.respond_to?(:registry) && filtered_type.registry != registry
-                        raise RuntimeError, "filter block #{filter_block} returned #{filtered_type} which is a type from #{filtered_type.registry} but I was expecting #{registry}"
-                    end
-                    if !filtered_type.equal?(exported_type)
-                        exported_type =
-                            if filtered_type.respond_to?(:convertion_to_ruby) && filtered_type.convertion_to_ruby
-                                filtered_type.convertion_to_ruby[0] || filtered_type
-                            else filtered_type
-                            end
-                    end
-                end
+            elsif (type = RegistryExport.find_type(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)) && (exported_type = resolve_exported_type(type))
                 @__typelib_registry_export_cache[[m, args]] = setup_export_type(exported_type, type.name)
             elsif basename = RegistryExport.find_namespace(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)
                 ns = Namespace.new
-- 
2.43.0


From 1a04ae53d4ee698bbc2ddcb12f880f53ac099c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 081/132] fix: registry export used DelegateClass without
 loading it

---
 bindings/ruby/lib/typelib/registry_export.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index a34c400..97bba7e 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -1,3 +1,4 @@
+require 'delegate'
 require 'facets/string/snakecase'
 require 'facets/string/camelcase'
 module Typelib
-- 
2.43.0


From c699d2c8c7c7ed4f752582e0c52570787ccb826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 082/132] fix: types were taken for namespaces when looked for
 by similar names

---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 97bba7e..9d406a9 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -112,7 +112,7 @@ module Typelib
             basename = "#{m}#{template_args}".snakecase
             registry.each(typename_prefix) do |type|
                 name = type.split_typename
-                next if name[0, prefix.size] != prefix
+                next if name.size < prefix.size + 2 || name[0, prefix.size] != prefix
                 if name[prefix.size].snakecase == basename
                     return name[prefix.size]
                 end
-- 
2.43.0


From aadeb2b0d59f4280e30dc5923a978115880effda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 083/132] fix: methods gave types of similar names once those
 were accessed as constants

---
 bindings/ruby/lib/typelib/registry_export.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 9d406a9..3572534 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -184,10 +184,10 @@ module Typelib
 
         def resolve_call_from_exported_registry(relaxed_naming, m, *args)
             @__typelib_registry_export_cache ||= Hash.new
-            if type = @__typelib_registry_export_cache[[m, args]]
+            if type = @__typelib_registry_export_cache[[relaxed_naming, m, args]]
                 return type
             elsif (type = RegistryExport.find_type(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)) && (exported_type = resolve_exported_type(type))
-                @__typelib_registry_export_cache[[m, args]] = setup_export_type(exported_type, type.name)
+                @__typelib_registry_export_cache[[relaxed_naming, m, args]] = setup_export_type(exported_type, type.name)
             elsif basename = RegistryExport.find_namespace(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)
                 ns = Namespace.new
                 ns.initialize_registry_export(self, "#{@__typelib_registry_export_typename_prefix}#{basename}")
-- 
2.43.0


From 560e7e8b12bf9e5ce624d09729a381148008351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 084/132] fix: types inside types exported as their Ruby
 equivalent could not be accessed if they have one too

---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 3572534..2a3bd80 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -142,7 +142,7 @@ module Typelib
         end
 
         def RegistryExportDelegate(ruby_class)
-            klass = DelegateClass(ruby_class.singleton_class).new(ruby_class)
+            klass = ::Kernel.send(:DelegateClass, ruby_class.singleton_class).new(ruby_class)
             klass.extend WithRegistry
             klass
         end
-- 
2.43.0


From 2402ecc8d1b9c2a7edcbe6dc6796c2898dc70f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 085/132] fix: elements of containers could be returned as
 Typelib values, and refused those of other registries

---
 bindings/ruby/lib/typelib/container_type.rb | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 75f5fda..097d63f 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -317,12 +317,21 @@ module Typelib
             end
         end
 
+        # Elements without declared convertions. Those that have a Ruby
+        # equivalent might be given as Typelib values, e.g. if they have been
+        # accessed with the raw_ methods
         def __element_to_ruby(value)
-            value
+            if value.kind_of?(Type) then element_t.to_ruby(value)
+            else value
+            end
         end
 
+        # Elements without declared convertions. Ruby values are handled by the
+        # extension, values of an equivalent type have to be casted
         def __element_from_ruby(value)
-            value
+            if value.kind_of?(Type) then Typelib.from_ruby(value, element_t)
+            else value
+            end
         end
 
         def concat(array)
-- 
2.43.0


From f8764a8d0b4d7ab6e418d98b19efc26e04f05c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 086/132] fix: convertions declared for arrays and containers
 of converted elements were ignored

---
 bindings/ruby/lib/typelib/type.rb | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 24c2226..eba05a3 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -222,14 +222,17 @@ module Typelib
             Typelib.convertions_from_ruby.find_all(self).each do |conv|
                 convert_from_ruby(conv.ruby, &conv.block)
             end
-            if conv = Typelib.convertions_to_ruby.find(self, false)
-                convert_to_ruby(conv.ruby, &conv.block)
-            end
 
             if respond_to?(:extend_for_custom_convertions)
                 extend_for_custom_convertions
             end
 
+            # This is done last so that the declared convertions override the
+            # default ones of arrays and containers of converted elements
+            if conv = Typelib.convertions_to_ruby.find(self, false)
+                convert_to_ruby(conv.ruby, &conv.block)
+            end
+
             super if defined? super
         end
 
-- 
2.43.0


From 6a29a1acc7add145c3401ed54ec665a63c9c0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 087/132] fix: assigning nil to a converted field with its
 accessor was silently ignored

---
 bindings/ruby/lib/typelib/compound_type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index ce1e099..53f1673 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -209,7 +209,7 @@ module Typelib
                         converted_fields.each do |field_name|
                             attr_name = "@#{FIELD_NANE_PREFIX}#{field_name}"
                             define_method("#{field_name}=") do |value|
-                                if @field_types[field_name].needs_convertion_to_ruby?
+                                if !value.nil? && @field_types[field_name].needs_convertion_to_ruby?
                                     instance_variable_set(attr_name, value)
                                 else
                                     set(field_name, value)
-- 
2.43.0


From a9bf9a11f95f35a57b9f2608be43263ace8c3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 088/132] fix: Typelib.convert_to_ruby ignored its options if
 no class was given

---
 bindings/ruby/lib/typelib/specializations.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/specializations.rb b/bindings/ruby/lib/typelib/specializations.rb
index 5e9854b..fe32bc7 100644
--- a/bindings/ruby/lib/typelib/specializations.rb
+++ b/bindings/ruby/lib/typelib/specializations.rb
@@ -305,11 +305,11 @@ module Typelib
     #   end
     def self.convert_to_ruby(typename, ruby_class = nil, options = Hash.new, &block)
         if ruby_class.kind_of?(Hash)
-            ruby_class, options = nil, options
+            ruby_class, options = nil, ruby_class
         end
 
         if ruby_class && !ruby_class.kind_of?(Class)
-            raise ArgumentError, "expected a class as second argument, got #{to}"
+            raise ArgumentError, "expected a class as second argument, got #{ruby_class}"
         end
         convertions_to_ruby.add(typename, Convertion.new(typename, ruby_class, lambda(&block)), options)
     end
-- 
2.43.0


From 8a70ffe6122ac9d01aeab5a861651e10f51a458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 089/132] fix: ambiguous customizations were reported with a
 NameError

---
 bindings/ruby/lib/typelib/specializations.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/specializations.rb b/bindings/ruby/lib/typelib/specializations.rb
index fe32bc7..e49cfed 100644
--- a/bindings/ruby/lib/typelib/specializations.rb
+++ b/bindings/ruby/lib/typelib/specializations.rb
@@ -102,7 +102,7 @@ module Typelib
         def find(type_model, error_if_ambiguous = true)
             all = find_all(type_model)
             if all.size > 1 && error_if_ambiguous
-                raise ArgumentError, "more than one entry matches #{name}"
+                raise ArgumentError, "more than one entry matches #{type_model.name}"
             else all.first
             end
         end
-- 
2.43.0


From 9d38eba21cb683df4c03503c529c824966420f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 090/132] fix: convertions from Array declared for arrays and
 containers were ignored

---
 bindings/ruby/lib/typelib/array_type.rb     |  3 +++
 bindings/ruby/lib/typelib/container_type.rb | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index 897f254..5ec94a9 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -104,6 +104,9 @@ module Typelib
         def self.subclass_initialize
             super if defined? super
 
+            # Declared convertions take precedence
+            return if convertions_from_ruby.has_key?(Array)
+
             convert_from_ruby Array do |value, expected_type|
                 if value.size != expected_type.length
                     raise ArgumentError, "expected an array of size #{expected_type.length}, got #{value.size}"
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 097d63f..5cd481a 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -215,10 +215,13 @@ module Typelib
                 include RandomAccessContainer
             end
 
-            convert_from_ruby Array do |value, expected_type|
-                t = expected_type.new
-                t.concat(value)
-                t
+            # Declared convertions take precedence
+            if !convertions_from_ruby.has_key?(Array)
+                convert_from_ruby Array do |value, expected_type|
+                    t = expected_type.new
+                    t.concat(value)
+                    t
+                end
             end
             convert_from_ruby DeepCopyArray do |value, expected_type|
                 t = expected_type.new
-- 
2.43.0


From 3a608741d79e7f9ed35e0aec8fb2d7b2bd92f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:38 +0000
Subject: [PATCH 091/132] fix: paths and accessors did not return values that
 are false

---
 bindings/ruby/lib/typelib/path.rb | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/path.rb b/bindings/ruby/lib/typelib/path.rb
index 9a5bff7..702f127 100644
--- a/bindings/ruby/lib/typelib/path.rb
+++ b/bindings/ruby/lib/typelib/path.rb
@@ -63,9 +63,10 @@ module Typelib
         # Performs a call operation and recursively calls {resolve} on the
         # method's return value
         def call(spec, value, elements)
-            if value = value.send(*spec)
-                resolve(value, elements)
-            else []
+            value = value.send(*spec)
+            if value.nil?
+                []
+            else resolve(value, elements)
             end
         end
 
-- 
2.43.0


From 3eadd37b93d6d2b3ff04ca22fff81705bfb516a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 092/132] fix: Registry.import did not accept options

---
 bindings/ruby/lib/typelib/registry.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 3c80a57..0285561 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -152,9 +152,9 @@ module Typelib
         #   registry.import(args)
         #
         # See Registry#import
-        def self.import(*args)
+        def self.import(*args, **options)
             registry = Registry.new
-            registry.import(*args)
+            registry.import(*args, **options)
             registry
         end
 
-- 
2.43.0


From b959f6495fd22e5571d8a3447a4442d608029e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 093/132] fix: importing a class that inherits from a container
 or an opaque failed with a NoMethodError

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index bc721a5..d6214f8 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -613,6 +613,10 @@ module Typelib
                         end
 
                         base_type = registry.get(base_type_name)
+                        if !(base_type <= CompoundType)
+                            return ignore(xmlnode, "ignoring #{name}, its base class #{base_type_name} is not a compound")
+                        end
+
                         if child_node['virtual'] != '0'
                             return ignore(xmlnode, "ignoring #{name}, it has virtual base classes")
                         elsif child_node['access'] != 'public'
-- 
2.43.0


From 137ebb1b25c7bb3643f1d1c54a327da19d58b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 094/132] fix: importing a file with an empty enum, or one with
 large values, failed as a whole

---
 bindings/ruby/lib/typelib/gccxml.rb | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index d6214f8..d72a1d7 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -725,6 +725,13 @@ module Typelib
                 id_to_name[id] = pointed_to_name
 
             elsif kind == "Enumeration"
+                values = info.enum_values[id].map { |v| Integer(v["init"]) }
+                if values.empty?
+                    return ignore(xmlnode, "ignoring #{name}, it is an empty enum")
+                elsif !values.all? { |v| (-(2**31)...2**31).cover?(v) }
+                    return ignore(xmlnode, "ignoring #{name}, some of its values do not fit in 32 bits")
+                end
+
                 type = registry.create_enum(normalized_name) do |e|
                     info.enum_values[id].each do |enum_value|
                         e.add(enum_value["name"], Integer(enum_value['init']))
-- 
2.43.0


From 0d9bc2826820d233a0f284fbdeee6038423cabb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 095/132] fix: enums whose size is not the size of Typelib's
 enums were imported, overlapping other fields

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index d72a1d7..8718b92 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -730,6 +730,8 @@ module Typelib
                     return ignore(xmlnode, "ignoring #{name}, it is an empty enum")
                 elsif !values.all? { |v| (-(2**31)...2**31).cover?(v) }
                     return ignore(xmlnode, "ignoring #{name}, some of its values do not fit in 32 bits")
+                elsif xmlnode['size'] && xmlnode['size'] != '32'
+                    return ignore(xmlnode, "ignoring #{name}, only enums of 32 bits are supported")
                 end
 
                 type = registry.create_enum(normalized_name) do |e|
-- 
2.43.0


From da1aa2cca142c78d8827c5a67197646ce0dd2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 096/132] fix: typedefs of standard types that no imported type
 uses were lost

---
 bindings/ruby/lib/typelib/gccxml.rb | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 8718b92..55a4b68 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -920,10 +920,13 @@ module Typelib
                 end
             end
             registry.each(with_aliases: true) do |name, t|
-                next if (name == t.name) || !filtered_registry.include?(t.name)
+                next if name == t.name
                 next if base_registry.include?(name)
 
                 if permanent_alias?(name)
+                    if !filtered_registry.include?(t.name)
+                        filtered_registry.merge(t.minimal_registry(with_aliases: false))
+                    end
                     filtered_registry.alias(name, t.name)
                 end
             end
-- 
2.43.0


From 06cc718cf1ee5f477d66c6f2c3f6eb71bb39503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 097/132] fix: comments at the end of a file were taken for
 documentation of its first declaration

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 55a4b68..02028ce 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -808,7 +808,7 @@ module Typelib
             # Lines are given 1-based (as all editors work that way), and we
             # want the line before the definition. Remove two
             line = line - 2
-            while true
+            while line >= 0
                 case l = lines[line]
                 when /^\s*$/
                 when /^\s*(\*|\/\/|\/\*)/
-- 
2.43.0


From d94c8adf9d1b0bd6d173e3b4943bb723db6fdaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 098/132] fix: types were confused with types of the same name
 in other namespaces during C++ import

---
 bindings/ruby/lib/typelib/gccxml.rb | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 02028ce..c958302 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -350,7 +350,7 @@ module Typelib
                 ns   = ns[0..-2]
                 candidates = info.name_to_nodes[ns].find_all { |n| NAMESPACE_NODE_TYPES.include?(n.name) }
                 if !context
-                    context = candidates.to_a.first
+                    context = candidates.find { |node| in_root_namespace?(node) }
                 else
                     context = candidates.find { |node| node['context'].to_s == context }
                 end
@@ -752,9 +752,20 @@ module Typelib
             normalized_name
         end
 
+        # Tests whether this node is not in any namespace
+        def in_root_namespace?(node)
+            return true unless (context = info.id_to_node[node["context"]])
+
+            context["name"] == "::"
+        end
+
         def find_node_by_name(typename, node_type: nil)
-            if node = info.name_to_nodes[typename].first
-                return node if !node_type || (node.name == node_type)
+            nodes = info.name_to_nodes[typename]
+            if !nodes.empty?
+                nodes.find do |node|
+                    (!node_type || (node.name == node_type)) &&
+                        (typename[0, 1] != "/" || in_root_namespace?(node))
+                end
             else
                 basename, context = resolve_namespace_of(typename)
                 return if !context
-- 
2.43.0


From 1e5873ff21b0d8a8e992b2ed55f558d1fa1a4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 099/132] fix: importing a file failed as a whole if a type in
 it refers to itself

---
 bindings/ruby/lib/typelib/gccxml.rb | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index c958302..abcbbe6 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -411,7 +411,8 @@ module Typelib
             if ignored?(id.to_str)
                 nil
             elsif name = id_to_name[id]
-                name
+                # It is not there yet if it contains itself
+                name if registry.include?(name)
             elsif node = node_from_id(id)
                 resolve_type_definition(node)
             end
@@ -589,6 +590,8 @@ module Typelib
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
                         elsif !resolve_type_definition(contained_node)
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
+                        elsif !registry.include?(contained_type)
+                            return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} contains it")
                         end
                     end
 
-- 
2.43.0


From 7fd371c2a685dd173b40fbda600c4a290158d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 100/132] fix: empty castxml output raised NoMethodError
 instead of being reported

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index abcbbe6..c400ea1 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -108,7 +108,7 @@ module Typelib
             scanner.skip_until(/\n/)
             root_tag = scanner.scan_until(/\n/)
             if root_tag !~ /<GCC_XML/
-                raise RuntimeError, "the provided XML input does not look like a GCCXML output (expected a root GCC_XML tag but got #{root_tag.chomp})"
+                raise RuntimeError, "the provided XML input does not look like a GCCXML output (expected a root GCC_XML tag but got #{root_tag.to_s.chomp})"
             end
 
             while (l = scanner.scan_until(/\n/))
-- 
2.43.0


From 9efb2b68a03c79f297850ec276002922e2992fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 101/132] fix: importing a file with vectors of pointers, or
 with pointers to template instances as template arguments, failed as a whole

---
 bindings/ruby/lib/typelib/gccxml.rb | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index c400ea1..3edff50 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -228,9 +228,12 @@ module Typelib
                 begin
                     registry.build(n).name
                 rescue Typelib::NotFound
-                    if node = find_node_by_name(n)
-                        resolve_type_definition(node) || n
-                    else n
+                    # Pointers are built from the type they point to
+                    pointed_to = n.sub(/[\s*]+\z/, "")
+                    stars = n[pointed_to.size..-1].delete(" ")
+                    if node = find_node_by_name(pointed_to)
+                        "#{resolve_type_definition(node) || pointed_to}#{stars}"
+                    else "#{pointed_to}#{stars}"
                     end
                 end
             end
@@ -264,7 +267,7 @@ module Typelib
                         end
                     end
                     result[-1] = "#{result[-1]}<#{args.join(",")}>"
-                elsif tk[0, 1] != "/" && tk !~ /^[-+\d]/
+                elsif tk[0, 1] != "/" && tk !~ /^[-+\d*\[]/
                     result << "/#{tk}"
                 else
                     result << tk
@@ -579,12 +582,12 @@ module Typelib
                     # This is internally known to typelib
                 elsif Typelib::Registry.available_containers.include?(type_name)
                     # This is known to Typelib as a container
-                    contained_type = template_args[0]
+                    # Pointers are built from the type they point to
+                    contained_type = template_args[0].sub(/[\s*]+\z/, "")
                     if !registry.include?(contained_type)
                         contained_node = find_node_by_name(contained_type)
                         if !contained_node
-                            contained_node = find_node_by_name(contained_type)
-                            raise "Internal error: cannot find definition for #{contained_type}, element of #{name}"
+                            return ignore(xmlnode, "ignoring #{name}, cannot find the definition of its element type #{contained_type}")
                         end
                         if ignored?(contained_node["id"])
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
-- 
2.43.0


From 7bcd373cecf5fa40f1ccc14160c5eb822ffff0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 102/132] fix: importing a file with constant pointers failed
 as a whole

---
 bindings/ruby/lib/typelib/gccxml.rb | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 3edff50..7cc1afb 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -461,6 +461,12 @@ module Typelib
                 spec << 'volatile'
             end
             if name = resolve_type_id(xmlnode['type'])
+                # There are no aliases of pointers and arrays
+                if name =~ /[*\]]\z/
+                    id_to_name[xmlnode['id']] = name
+                    return name, name
+                end
+
                 qualified_name = "#{name} #{spec.join(" ")}"
                 id_to_name[xmlnode['id']] = qualified_name
                 return qualified_name, name
@@ -543,7 +549,7 @@ module Typelib
             elsif kind == "CvQualifiedType"
                 qualified_name, name = resolve_qualified_type(xmlnode)
                 if qualified_name
-                    registry.alias(qualified_name, name)
+                    registry.alias(qualified_name, name) if qualified_name != name
                     return name
                 else return
                 end
-- 
2.43.0


From 941f18b06e5d4ccfcf4b5c8fa3d32531d7c0073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:18 +0000
Subject: [PATCH 103/132] fix: the types of headers whose path contains =, & or
 quotes were not imported

---
 bindings/ruby/lib/typelib/gccxml.rb | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 7cc1afb..b9b6193 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -45,6 +45,8 @@ module Typelib
             end
         end
 
+        XML_ENTITIES = { "&lt;" => "<", "&gt;" => ">", "&quot;" => '"', "&apos;" => "'", "&amp;" => "&" }.freeze
+
         STORED_TAGS = %w{Namespace Typedef Enumeration Struct Class ArrayType FundamentalType PointerType CvQualifiedType}
 
         def initialize(required_files)
@@ -123,11 +125,9 @@ module Typelib
                             tag_start(name, Hash['id' => $1, 'virtual' => '1'])
                         end
                     else
-                        raw_attributes = l.gsub(/&lt;/, "<").gsub(/&gt;/, ">").scan(/\w+="[^"]+"/)
                         attributes = Hash.new
-                        raw_attributes.each do |attr|
-                            attr_name, attr_value = attr.split("=")
-                            attributes[attr_name] = attr_value[1..-2]
+                        l.scan(/(\w+)="([^"]+)"/) do |attr_name, attr_value|
+                            attributes[attr_name] = attr_value.gsub(/&(?:lt|gt|quot|apos|amp);/, XML_ENTITIES)
                         end
                         tag_start(name, attributes)
                     end
-- 
2.43.0


From 49c5c49f10523b9b6e9a1c1c276cbf0c453cc962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:18 +0000
Subject: [PATCH 104/132] fix: importing headers whose path contains a colon
 failed

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index b9b6193..80a607b 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -915,7 +915,7 @@ module Typelib
             # have a source file/line
             registry.each do |type|
                 if location = type.metadata.get('source_file_line').first
-                    file, line = location.split(':')
+                    file, _, line = location.rpartition(':')
                     line = Integer(line)
                     if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
                         type.metadata.set('doc', doc)
@@ -925,7 +925,7 @@ module Typelib
                 if type.respond_to?(:field_metadata)
                     type.field_metadata.each do |field_name, md|
                         if location = md.get('source_file_line').first
-                            file, line = location.split(':')
+                            file, _, line = location.rpartition(':')
                             line = Integer(line)
                             if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
                                 md.set('doc', doc)
-- 
2.43.0


From 3fcb90919cd302432da2a5d930d84cf7a0e90ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:18 +0000
Subject: [PATCH 105/132] fix: importing headers that are not encoded in UTF-8
 failed

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 80a607b..8837888 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -486,7 +486,7 @@ module Typelib
                 source_file_contents[file]
             else
                 if File.file?(file)
-                    source_file_contents[file] = File.readlines(file, :encoding => 'utf-8')
+                    source_file_contents[file] = File.readlines(file, :encoding => 'utf-8').map(&:scrub)
                 else
                     source_file_contents[file] = nil
                 end
-- 
2.43.0


From 29a2668af8a443b86ad7d5d6b7fb766a25594f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 106/132] fix: importing a file with constant template
 instances failed as a whole

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 8837888..50acbe7 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -461,8 +461,8 @@ module Typelib
                 spec << 'volatile'
             end
             if name = resolve_type_id(xmlnode['type'])
-                # There are no aliases of pointers and arrays
-                if name =~ /[*\]]\z/
+                # There are no aliases of pointers, arrays and templates
+                if name =~ /[*\]>]\z/
                     id_to_name[xmlnode['id']] = name
                     return name, name
                 end
-- 
2.43.0


From 0395679ce987bcd338429b8a4713c97bbfac45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:23 +0000
Subject: [PATCH 107/132] fix: types inside instances of templates with ignored
 arguments did not share the name of the instance

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 50acbe7..5122a44 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -232,7 +232,9 @@ module Typelib
                     pointed_to = n.sub(/[\s*]+\z/, "")
                     stars = n[pointed_to.size..-1].delete(" ")
                     if node = find_node_by_name(pointed_to)
-                        "#{resolve_type_definition(node) || pointed_to}#{stars}"
+                        # Ignored types have a name as well
+                        resolve_type_definition(node)
+                        "#{id_to_name[node["id"]] || pointed_to}#{stars}"
                     else "#{pointed_to}#{stars}"
                     end
                 end
-- 
2.43.0


From 2cb69d1ecedea6fff011bbb3c68d9a92e18663e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 108/132] fix: importing failed if opaques are typedefs of
 pointers or of known types, or use each other

---
 bindings/ruby/lib/typelib/gccxml.rb | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 5122a44..dc8a95d 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -810,20 +810,31 @@ module Typelib
         def resolve_opaques
             # First do typedefs. Search for the typedefs that are named like our
             # type, if we find one, alias it
-            opaques.dup.each do |opaque_name|
+            full_names = opaques.dup.map do |opaque_name|
                 if node = find_node_by_name(opaque_name, node_type: 'Typedef')
                     type_node = node_from_id(node["type"].to_s)
                     full_name = resolve_node_typelib_name(type_node)
-                    normalized_name = normalize_type_name(full_name)
 
-                    opaques << full_name << normalized_name
                     opaque_t = registry.get(opaque_name)
                     set_source_file(opaque_t, node)
                     opaque_t.metadata.set('opaque_is_typedef', '1')
+                    # Types that are already known are not opaque themselves
+                    next if !full_name || registry.include?(full_name)
+
+                    opaques << full_name
                     registry.alias full_name, opaque_name
-                    registry.alias normalized_name, opaque_name
+                    [opaque_name, full_name]
                 end
             end
+
+            # Only then, as it resolves the types used in the names
+            full_names.compact.each do |opaque_name, full_name|
+                normalized_name = normalize_type_name(full_name)
+                next if registry.include?(normalized_name)
+
+                opaques << normalized_name
+                registry.alias normalized_name, opaque_name
+            end
         end
 
         def self.parse_cxx_documentation_before(lines, line)
-- 
2.43.0


From 2f8678f168e551b17a562f3412fd2455ae78744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:52 +0000
Subject: [PATCH 109/132] fix: instances of templates without arguments, and
 with arguments that have none, were misnamed or made C++ import fail

---
 bindings/ruby/lib/typelib/cxx.rb | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/cxx.rb b/bindings/ruby/lib/typelib/cxx.rb
index d9924c3..0406fb4 100644
--- a/bindings/ruby/lib/typelib/cxx.rb
+++ b/bindings/ruby/lib/typelib/cxx.rb
@@ -25,14 +25,15 @@ module Typelib
                 when "<"
                     level += 1
                     if level > 1
-                        current << "<" << tokens.shift
+                        current << "<"
                     else
                         current = []
                     end
                 when ">"
                     level -= 1
                     if level == 0
-                        arguments << current
+                        # There can be no arguments at all
+                        arguments << current unless arguments.empty? && current.empty?
                         current = []
                         break
                     else
@@ -43,7 +44,7 @@ module Typelib
                         arguments << current
                         current = []
                     else
-                        current << "," << tokens.shift
+                        current << ","
                     end
                 else
                     current << tk
-- 
2.43.0


From 229b49e9a04436b6a6f4b5d667d8aeba31c540da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:52 +0000
Subject: [PATCH 110/132] fix: importing a file failed as a whole if template
 arguments in it cannot be part of a type name

---
 bindings/ruby/ext/registry.cc       | 13 +++++++++++++
 bindings/ruby/lib/typelib/gccxml.rb |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 94e9f29..abbf3d0 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -4,6 +4,7 @@
 #include <typelib/importer.hh>
 #include <typelib/exporter.hh>
 #include <typelib/registryiterator.hh>
+#include <typelib/typename.hh>
 #include <lang/csupport/standard_types.hh>
 #include <typelib/utilmm/configset.hh>
 #include <set>
@@ -510,6 +511,17 @@ static VALUE registry_size(VALUE self)
     return INT2NUM(registry.size());
 }
 
+/*
+ * call-seq:
+ *  Registry.valid_typename?(name) => true or false
+ *
+ * Tests whether a type can have the given name
+ */
+static VALUE registry_valid_typename_p(VALUE registry_module, VALUE name)
+{
+    return Typelib::isValidTypename(StringValueCStr(name), true) ? Qtrue : Qfalse;
+}
+
 /*
  * call-seq:
  *  Registry.available_containers => container_names
@@ -743,6 +755,7 @@ void typelib_ruby::Typelib_init_registry()
 
     rb_define_singleton_method(cRegistry, "add_standard_cxx_types", TYPELIB_METHOD_FUNC(registry_add_standard_cxx_types), 1);
 
+    rb_define_singleton_method(cRegistry, "valid_typename?", TYPELIB_METHOD_FUNC(registry_valid_typename_p), 1);
     rb_define_singleton_method(cRegistry, "available_containers", TYPELIB_METHOD_FUNC(registry_available_container), 0);
     rb_define_method(cRegistry, "define_container", TYPELIB_METHOD_FUNC(registry_define_container), 3);
 }
diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index dc8a95d..29edd8b 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -584,6 +584,11 @@ module Typelib
                 return ignore(xmlnode, "ignoring #{name} as it has a non-public access specifier: #{access_specifier}")
             end
 
+            # Not all template arguments can be part of a type name
+            unless Registry.valid_typename?(name) && Registry.valid_typename?(normalized_name)
+                return ignore(xmlnode, "ignoring #{name}, a type cannot have this name")
+            end
+
             if kind == "Struct" || kind == "Class"
                 type_name, template_args = CXX.parse_template(name)
                 if type_name == "/std/string"
-- 
2.43.0


From 778f099f044018a105c6bb1f29465ec75ce15e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:12 +0000
Subject: [PATCH 111/132] fix: importing a file failed as a whole if it has an
 instance of a template that is part of its own arguments

---
 bindings/ruby/lib/typelib/gccxml.rb | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 29edd8b..d6b52b0 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -577,7 +577,12 @@ module Typelib
             cxxname = resolve_node_cxx_name(xmlnode)
 
             normalized_name = normalize_type_name(name)
-            id_to_name[id]  = normalized_name
+            # The types used in the name might use this type, too
+            if id_to_name.has_key?(id)
+                return resolve_type_id(id)
+            end
+
+            id_to_name[id] = normalized_name
 
             access_specifier = xmlnode['access']
             if access_specifier && (access_specifier != 'public')
-- 
2.43.0


From 11ef205563df1978832564837672029f95fb2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 112/132] fix: failures of gccxml were reported with a
 NameError

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index d6b52b0..98ae46e 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -1079,7 +1079,7 @@ module Typelib
             Tempfile.open("typelib_gccxml") do |io|
                 cmdline << "-fxml=#{io.path}"
                 unless system(*cmdline)
-                    raise ArgumentError, "gccxml returned an error while parsing #{file}"
+                    raise ArgumentError, "gccxml returned an error while parsing #{composite_file}"
                 end
                 [io.read]
             end
-- 
2.43.0


From 819dc0776dd2ca4e0e06aad1ef094724079c3ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 113/132] fix: Registry.load_from_gccxml passed its options as
 an argument

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 98ae46e..87777bb 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -1247,7 +1247,7 @@ module Typelib
     class Registry
         # @deprecated use {GCCXMLLoader.load} and {CXX.load}
         def self.load_from_gccxml(registry, file, kind, options)
-            GCCXMLLoader.load(registry, file, kind, options)
+            GCCXMLLoader.load(registry, file, kind, **options)
         end
 
         # Returns true if Registry#import will use GCCXML to load the given
-- 
2.43.0


From 78c3ee5243fde8c33abc82f69605ffd45c9dc8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 114/132] fix: the raw accessor of a field replaced the
 accessor of a field of that name

---
 bindings/ruby/lib/typelib/compound_type.rb | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 53f1673..cc86e95 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -269,10 +269,11 @@ module Typelib
                         full_fields_names.each do |name|
                             define_method(name) { get(name) }
                             define_method("#{name}=") { |value| set(name, value) }
-                            define_method("raw_#{name}") { raw_get(name) }
-                            define_method("raw_#{name}=") { |value| raw_set(name, value) }
                         end
-                        converted_field_names.each do |name|
+                        all_names = full_fields_names + converted_field_names
+                        all_names.each do |name|
+                            # There might be a field called that way
+                            next if all_names.include?("raw_#{name}")
                             define_method("raw_#{name}") { raw_get(name) }
                             define_method("raw_#{name}=") { |value| raw_set(name, value) }
                         end
-- 
2.43.0


From 9abcd9a34984e1c09c17ff5e7645133a2775967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 115/132] fix: fields could replace methods that the values
 need

---
 bindings/ruby/lib/typelib/compound_type.rb | 2 +-
 bindings/ruby/lib/typelib/type.rb          | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index cc86e95..d7798dd 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -311,7 +311,7 @@ module Typelib
                 full_fields = full_fields.sort
 
                 @converted_fields = converted_fields
-                overloaded_converted_fields = filter_methods_that_should_not_be_defined(converted_fields, false)
+                overloaded_converted_fields = filter_methods_that_should_not_be_defined(converted_fields, true)
                 overloaded_full_fields = filter_methods_that_should_not_be_defined(full_fields, true)
                 m = access_method_module(overloaded_full_fields, overloaded_converted_fields)
                 include(m)
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index eba05a3..44f8ded 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -24,6 +24,8 @@ module Typelib
         allowed_overloadings = allowed_overloadings.map(&:to_s).to_set
         allowed_overloadings.delete_if { |n| n =~ /^__/ }
         allowed_overloadings -= ["class"]
+        # These are defined or called by Typelib on the values
+        allowed_overloadings -= %w{clone dup enum_for extend freeze inspect instance_variable_get instance_variable_set pretty_print send to_s}
         allowed_overloadings |= allowed_overloadings.map(&:to_sym).to_set
         ALLOWED_OVERLOADINGS = allowed_overloadings.to_set
 
-- 
2.43.0


From dd2d2f5009fd5389bbc0e683b2a49d3a36af0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 116/132] fix: arrays could not be assigned to compounds that
 are converted to another class

---
 bindings/ruby/lib/typelib/compound_type.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index d7798dd..27753f7 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -98,8 +98,8 @@ module Typelib
                     if !value.nil?
                         set_field(field_name, value)
                         instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
-                        if value.kind_of?(Array)
-                            update_converted_elements(value, raw_get(field_name))
+                        if value.kind_of?(Array) && (container = raw_get(field_name)).respond_to?(:element_t)
+                            update_converted_elements(value, container)
                         end
                     end
                 end
-- 
2.43.0


From d4108fe6c21882cc7056743a104a55dc708a9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:52 +0000
Subject: [PATCH 117/132] fix: TYPELIB_RUBY_PLUGIN_PATH raised NoMethodError

File.exists? does not exist anymore in current versions of Ruby.
---
 bindings/ruby/lib/typelib.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 2d76c70..d298f5a 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -162,7 +162,7 @@ module Typelib
 
         ENV['TYPELIB_RUBY_PLUGIN_PATH'].split(':').each do |dir|
             specific_file = File.join(dir, "typelib_plugin.rb")
-            if File.exists?(specific_file)
+            if File.exist?(specific_file)
                 if require(specific_file)
                     STDERR.puts "WARN: integrating typelib plugin using the TYPELIB_RUBY_PLUGIN_PATH environment variable is deprecated"
                     STDERR.puts "WARN: just put a file called typelib_plugin.rb into a subfolder from the RUBYLIB (e.g. base/typelib_plugin.rb)"
-- 
2.43.0


From 1737af24c224d41c2d5ab476d806c4b34c9b9e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:52 +0000
Subject: [PATCH 118/132] fix: options whose value is a hash made imports and
 exports crash

They were formatted as a list of lists of pairs, whose strings were then
accessed as arrays by the extension.
---
 bindings/ruby/lib/typelib/registry.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 0285561..a49ca93 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -140,7 +140,7 @@ module Typelib
                         [ opt[0].to_s, opt[1].map { |child| child.to_s } ]
                     end
                 elsif opt[1].kind_of?(Hash)
-                    [ opt[0].to_s, format_options(opt[1]) ]
+                    [ opt[0].to_s, [format_options(opt[1])] ]
                 else
                     [ opt[0].to_s, opt[1].to_s ]
                 end
-- 
2.43.0


From f86580399a4e3d690be0928433e3e6d4c8c72e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:52 +0000
Subject: [PATCH 119/132] fix: include directories were never given to the
 clang importer

The option that has them is a keyword of the method and hence not part of
the remaining options, and Registry#import documents them as :include.
---
 bindings/ruby/lib/typelib/clang.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/clang.rb b/bindings/ruby/lib/typelib/clang.rb
index 5a7d732..624fb89 100644
--- a/bindings/ruby/lib/typelib/clang.rb
+++ b/bindings/ruby/lib/typelib/clang.rb
@@ -23,7 +23,7 @@ module Typelib
                 end
             end
 
-            include_dirs = options[:include_paths] || []
+            include_dirs = include_paths + (options[:include] || [])
             include_path = include_dirs.map { |d| "-I#{d}" }
             defines = options[:define] || []
             #add -D to the defines
-- 
2.43.0


From 9184d6b47fa350408c1cfaf2362d2eccb6754380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:12 +0000
Subject: [PATCH 120/132] fix: listing the names of a registry gave aliases the
 name of their type

---
 typelib/registry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 240c15b..091ee44 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -558,7 +558,7 @@ namespace Typelib
                     stream << it->first << " is an alias for " << regtype.type->getName() << "\n";
             }
             else
-                stream << "\t" << regtype.type->getName() << endl;
+                stream << "\t" << it->first << endl;
         }
     }
 
-- 
2.43.0


From 3ff337b03b52da3ef326661fefae69d528c9a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 121/132] fix: registries that have some of the standard types
 did not get the others

Nothing was added at all if /bool was known, and the addition failed halfway
if another one was.
---
 lang/csupport/standard_types.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lang/csupport/standard_types.cc b/lang/csupport/standard_types.cc
index 62c4dc6..3c8e7f1 100644
--- a/lang/csupport/standard_types.cc
+++ b/lang/csupport/standard_types.cc
@@ -5,7 +5,26 @@
 #include <iostream>
 using namespace Typelib;
 
-static void addStandardTypes(Typelib::Registry& r)
+// Leaves the types that the registry already has as they are
+struct MissingTypes
+{
+    Typelib::Registry& registry;
+
+    void add(Typelib::Type* type)
+    {
+        if (registry.has(type->getName()))
+            delete type;
+        else
+            registry.add(type);
+    }
+    void alias(std::string const& base, std::string const& name)
+    {
+        if (!registry.has(name))
+            registry.alias(base, name);
+    }
+};
+
+static void addStandardTypes(MissingTypes r)
 {
     BOOST_STATIC_ASSERT((Typelib::NamespaceMark == '/'));
 
@@ -123,8 +142,8 @@ static void addStandardTypes(Typelib::Registry& r)
 
 void Typelib::CXX::addStandardTypes(Typelib::Registry& registry)
 {
-    if (!registry.has("/bool"))
-        ::addStandardTypes(registry);
+    MissingTypes missing = { registry };
+    ::addStandardTypes(missing);
     if (!registry.has("/std/string"))
         registry.add(new String(*registry.get("/int8_t")));
 }
-- 
2.43.0


From d39eae815862b3b436b468cdc05cb744b751b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 122/132] fix: converted fields named frozen or invalidated
 made values look frozen or invalidated

Their values were kept in the instance variables that have these states.
---
 bindings/ruby/lib/typelib/compound_type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 27753f7..9323116 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -6,7 +6,7 @@ module Typelib
     class CompoundType < Type
 
         # Prefix for all instance variables based on the type fields
-        FIELD_NANE_PREFIX = '__typelib_'
+        FIELD_NANE_PREFIX = '__typelib_field_'
 
         # Module used to extend frozen values
         module Freezer
-- 
2.43.0


From 5a98d87fe7ad17a0c0c1add2eeef104319414b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:45 +0000
Subject: [PATCH 123/132] fix: applying an array to a structure that has a
 field named element_t failed

---
 bindings/ruby/lib/typelib/compound_type.rb | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 9323116..4cd3f57 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -98,7 +98,8 @@ module Typelib
                     if !value.nil?
                         set_field(field_name, value)
                         instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
-                        if value.kind_of?(Array) && (container = raw_get(field_name)).respond_to?(:element_t)
+                        container = raw_get(field_name) if value.kind_of?(Array)
+                        if container.kind_of?(ArrayType) || container.kind_of?(ContainerType)
                             update_converted_elements(value, container)
                         end
                     end
@@ -117,7 +118,9 @@ module Typelib
                         end
                     elsif el.kind_of?(Array)
                         element = container.raw_get(i)
-                        update_converted_elements(el, element) if element.respond_to?(:element_t)
+                        if element.kind_of?(ArrayType) || element.kind_of?(ContainerType)
+                            update_converted_elements(el, element)
+                        end
                     end
                 end
             end
-- 
2.43.0


From 616d57726fef2a58da6449d85faf9e0741ebc939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 124/132] fix: inspecting a structure that has a field named
 address failed

---
 bindings/ruby/lib/typelib/type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 44f8ded..25286b5 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -785,7 +785,7 @@ module Typelib
         end
 
         def raw_to_s
-            "#<#{self.class.name}: 0x#{address.to_s(16)} ptr=0x#{@ptr.zone_address.to_s(16)}>"
+            "#<#{self.class.name}: 0x#{__id__.to_s(16)} ptr=0x#{@ptr.zone_address.to_s(16)}>"
         end
 
         def pretty_print(pp) # :nodoc:
-- 
2.43.0


From 3eaf9e261639dba10edee9a222ac99c71dcfaabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 125/132] fix: errors about structures that have a field named
 raise were other errors

---
 bindings/ruby/lib/typelib/compound_type.rb | 28 +++++++++++-----------
 bindings/ruby/lib/typelib/type.rb          | 10 ++++----
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 4cd3f57..779354c 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -11,38 +11,38 @@ module Typelib
         # Module used to extend frozen values
         module Freezer
             def set(*args)
-                raise TypeError, "frozen object"
+                Kernel.raise TypeError, "frozen object"
             end
             def raw_set(*args)
-                raise TypeError, "frozen object"
+                Kernel.raise TypeError, "frozen object"
             end
             def raw_set_field(*args)
-                raise TypeError, "frozen object"
+                Kernel.raise TypeError, "frozen object"
             end
         end
 
         # Module used to extend invalidated values
         module Invalidate
             def set(*args)
-                raise TypeError, "invalidated object"
+                Kernel.raise TypeError, "invalidated object"
             end
             def get(*args)
-                raise TypeError, "invalidated object"
+                Kernel.raise TypeError, "invalidated object"
             end
             def raw_get(*args)
-                raise TypeError, "invalidated object"
+                Kernel.raise TypeError, "invalidated object"
             end
             def raw_get_cached(*args)
-                raise TypeError, "invalidated object"
+                Kernel.raise TypeError, "invalidated object"
             end
             def raw_set(*args)
-                raise TypeError, "invalidated object"
+                Kernel.raise TypeError, "invalidated object"
             end
             def raw_get_field(*args)
-                raise TypeError, "invalidated object"
+                Kernel.raise TypeError, "invalidated object"
             end
             def raw_set_field(*args)
-                raise TypeError, "invalidated object"
+                Kernel.raise TypeError, "invalidated object"
             end
         end
 
@@ -522,9 +522,9 @@ module Typelib
 
         rescue ArgumentError => e
             if e.message =~ /^no field \w+ in /
-                raise e, (e.message + " in #{name}(#{self.class.name})"), e.backtrace
+                Kernel.raise e, (e.message + " in #{name}(#{self.class.name})"), e.backtrace
             else
-                raise e, (e.message + " while setting #{name} in #{self.class.name}"), e.backtrace
+                Kernel.raise e, (e.message + " while setting #{name} in #{self.class.name}"), e.backtrace
             end
         end
 
@@ -541,14 +541,14 @@ module Typelib
         # +value+ as field names
         def set(name, value)
             if !has_field?(name)
-                raise ArgumentError, "#{self.class.name} has no field called #{name}"
+                Kernel.raise ArgumentError, "#{self.class.name} has no field called #{name}"
             end
 
             value = Typelib.from_ruby(value, @field_types[name])
             raw_set_field(name.to_s, value)
 
         rescue TypeError => e
-            raise e, "#{e.message} for #{self.class.name}.#{name}", e.backtrace
+            Kernel.raise e, "#{e.message} for #{self.class.name}.#{name}", e.backtrace
         end
 
         # (see Type#to_simple_value)
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 25286b5..6266ddb 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -284,10 +284,10 @@ module Typelib
         alias clone dup
 
         module Invalidate
-            def to_memory_ptr; raise TypeError, "invalidated object" end
-            def to_ruby; raise TypeError, "invalidated object" end
-            def to_byte_array; raise TypeError, "invalidated object" end
-            def marshalling_size; raise TypeError, "invalidated object" end
+            def to_memory_ptr; Kernel.raise TypeError, "invalidated object" end
+            def to_ruby; Kernel.raise TypeError, "invalidated object" end
+            def to_byte_array; Kernel.raise TypeError, "invalidated object" end
+            def marshalling_size; Kernel.raise TypeError, "invalidated object" end
         end
 
         # Call to freeze the object, i.e. to make it readonly
@@ -820,7 +820,7 @@ module Typelib
         #
         # @return [Object]
         def to_simple_value(options = Hash.new)
-            raise NotImplementedError, "there is no way to convert a value of type #{self.class} into a simple ruby value"
+            Kernel.raise NotImplementedError, "there is no way to convert a value of type #{self.class} into a simple ruby value"
         end
 
         # Returns a representation of this type that can be serialized with JSON
-- 
2.43.0


From 0ed60b5694de272ff2d6caa02e2a21e611bad9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 126/132] fix: characters of strings stayed in use after the
 string had moved

---
 bindings/ruby/ext/specialized_types.cc         | 18 ++++++++++++++++++
 .../ruby/lib/typelib/standard_convertions.rb   |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 6faa3db..fa105f3 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -612,6 +612,21 @@ static VALUE vector_contained_memory_id(VALUE self)
     return ULL2NUM(reinterpret_cast<uint64_t>(&(*vector)[0]));
 }
 
+/*
+ * call-seq:
+ *  string.contained_memory_id => value or nil
+ *
+ * (see ContainerType#contained_memory_id)
+ */
+static VALUE string_contained_memory_id(VALUE self)
+{
+    Value container_v = rb2cxx::object<Value>(self);
+    std::string const* string = reinterpret_cast<std::string*>(container_v.getData());
+    if (string->empty())
+        return Qnil;
+    return ULL2NUM(reinterpret_cast<uint64_t>(string->data()));
+}
+
 /*
  * call-seq:
  *  vector.do_raw_memcpy(source,size) => nil
@@ -764,6 +779,9 @@ void typelib_ruby::Typelib_init_specialized_types()
     rb_define_method(cContainer, "do_erase",     TYPELIB_METHOD_FUNC(container_erase), 1);
     rb_define_method(cContainer, "do_delete_if", TYPELIB_METHOD_FUNC(container_delete_if), 0);
 
+    VALUE mString = rb_define_module_under(cContainer, "StdString");
+    rb_define_method(mString, "contained_memory_id", TYPELIB_METHOD_FUNC(string_contained_memory_id), 0);
+
     VALUE mVector = rb_define_module_under(cContainer, "StdVector");
     rb_define_method(mVector, "contained_memory_id", TYPELIB_METHOD_FUNC(vector_contained_memory_id), 0);
     rb_define_method(mVector, "do_raw_memcpy", TYPELIB_METHOD_FUNC(vector_raw_memcpy), 2);
diff --git a/bindings/ruby/lib/typelib/standard_convertions.rb b/bindings/ruby/lib/typelib/standard_convertions.rb
index f3bb996..d239341 100644
--- a/bindings/ruby/lib/typelib/standard_convertions.rb
+++ b/bindings/ruby/lib/typelib/standard_convertions.rb
@@ -36,6 +36,8 @@ module Typelib
         value
     end
     specialize '/std/string' do
+        include Typelib::ContainerType::StdString
+
         def to_str
             Typelib.to_ruby(self)
         end
-- 
2.43.0


From 896be5f3309d3e4b55ce217643e086016cf86522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 127/132] fix: containers of padded structures could not be
 created with a size

---
 bindings/ruby/lib/typelib/container_type.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 5cd481a..62a3e41 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -277,7 +277,8 @@ module Typelib
 
         # Create a new container with the given size and element
         def self.of_size(size, element = deference.new)
-            element = Typelib.from_ruby(element, deference).to_byte_array
+            # Elements of a container are marshalled with their trailing padding
+            element = Typelib.from_ruby(element, deference).to_byte_array(remove_trailing_skips: false)
             from_buffer([size].pack("Q") + element * size)
         end
 
-- 
2.43.0


From e2c5466755b75569dfbcf54e88656e0cd7b243cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 128/132] fix: no type was ever said to be compatible with
 memcpy

---
 bindings/ruby/lib/typelib/type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 6266ddb..69f24f5 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -69,7 +69,7 @@ module Typelib
             end
 
             def compatible_with_memcpy?
-                layout = begin memory_layout
+                layout, _ = begin memory_layout
                          rescue
                              return false # no layout for this type
                          end
-- 
2.43.0


From 10fa3d44ed5534d40f1575608c3e7f7352504354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:06 +0000
Subject: [PATCH 129/132] fix: parts of a frozen value could be changed when
 they had not been reached before

---
 bindings/ruby/ext/typelib.hh      |  2 ++
 bindings/ruby/ext/value.cc        | 13 +++++++++++++
 bindings/ruby/lib/typelib/type.rb |  6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index 905b2b1..d364552 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -231,6 +231,8 @@ namespace typelib_ruby {
     };
 
     extern VALUE value_get_registry(VALUE self);
+    /** Raises TypeError if +self+ has been frozen */
+    extern void value_check_frozen(VALUE self);
     extern VALUE type_get_registry(VALUE self);
     extern bool memory_ref(void* ptr);
     extern void memory_unref(void* ptr);
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index d3501d8..4580821 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -48,6 +48,16 @@ void* value_root_ptr(VALUE value)
  *   same DLPtr object, or DL will override the free function of the other
  *   DLPtr object -- which is obviously wrong, but nevertheless done.
  */
+static bool value_is_frozen(VALUE self)
+{
+    return RTEST(rb_iv_get(self, "@__typelib_frozen"));
+}
+void typelib_ruby::value_check_frozen(VALUE self)
+{
+    if (value_is_frozen(self))
+        rb_raise(rb_eTypeError, "frozen object");
+}
+
 VALUE cxx2rb::value_wrap(Value v, VALUE registry, VALUE parent)
 {
     VALUE type = type_wrap(v.getType(), registry);
@@ -60,6 +70,9 @@ VALUE cxx2rb::value_wrap(Value v, VALUE registry, VALUE parent)
 
     rb_iv_set(wrapper, "@parent", parent);
     rb_iv_set(wrapper, "@__typelib_invalidated", Qfalse);
+    // Parts of a readonly value are readonly
+    if (RTEST(parent) && value_is_frozen(parent))
+        rb_funcall(wrapper, rb_intern("freeze"), 0);
     return wrapper;
 }
 
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 69f24f5..339ea4f 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -292,6 +292,12 @@ module Typelib
 
         # Call to freeze the object, i.e. to make it readonly
         def freeze
+            if !frozen? && !invalidated?
+                # Converted values that have been given out do not follow a
+                # readonly value, and cannot change it
+                apply_changes_from_converted_types
+                invalidate_changes_from_converted_types
+            end
             freeze_children
             @__typelib_frozen = true
             self
-- 
2.43.0


From 524956bb0c945cd7309c5b989ed7a96338aed41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:06 +0000
Subject: [PATCH 130/132] fix: frozen values could be changed by zero!,
 from_buffer, copy, set and clear

---
 bindings/ruby/ext/specialized_types.cc | 5 +++++
 bindings/ruby/ext/strings.cc           | 1 +
 bindings/ruby/ext/value.cc             | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index fa105f3..41925be 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -62,6 +62,7 @@ static VALUE compound_field_get(VALUE rbvalue, VALUE name, VALUE raw)
 /* Helper function for CompoundType#[]= */
 static VALUE compound_field_set(VALUE self, VALUE name, VALUE newval)
 {
+    value_check_frozen(self);
     Value& tlib_value(rb2cxx::object<Value>(self));
 
     try {
@@ -281,6 +282,7 @@ static VALUE array_get(int argc, VALUE* argv, VALUE self)
  */
 static VALUE array_set(VALUE self, VALUE rbindex, VALUE newvalue)
 {
+    value_check_frozen(self);
     Value element = array_element(self, rbindex);
     return typelib_from_ruby(element, newvalue);
 }
@@ -453,6 +455,7 @@ static VALUE container_length(VALUE self)
  */
 static VALUE container_clear(VALUE self)
 {
+    value_check_frozen(self);
     Value value = rb2cxx::object<Value>(self);
     Container const& type(dynamic_cast<Container const&>(value.getType()));
 
@@ -638,6 +641,7 @@ static VALUE string_contained_memory_id(VALUE self)
  */
 static VALUE vector_raw_memcpy(VALUE self,VALUE _source,VALUE _size)
 {
+    value_check_frozen(self);
     Value container_v = rb2cxx::object<Value>(self);
     Container const& container_t = static_cast<Container const&>(container_v.getType());
     bool is_memcpy = false;
@@ -693,6 +697,7 @@ static VALUE numeric_to_ruby(VALUE mod, VALUE self)
  */
 static VALUE numeric_from_ruby(VALUE self, VALUE arg)
 {
+    value_check_frozen(self);
     Value& value(rb2cxx::object<Value>(self));
     try {
         typelib_from_ruby(value, arg);
diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index b4a8c24..9433ed0 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -56,6 +56,7 @@ static VALUE value_string_handler_p(VALUE self)
  */
 static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_good_type)
 {
+    value_check_frozen(self);
     Value const& value(rb2cxx::object<Value>(self));
     Type  const& type(value.getType());
     Registry const& registry = rb2cxx::object<Registry>(value_get_registry(self));
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 4580821..ae77870 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -476,6 +476,7 @@ VALUE value_new(VALUE klass, VALUE zero)
 static
 VALUE value_do_from_buffer(VALUE rbself, VALUE string, VALUE pointers, VALUE opaques, VALUE merge, VALUE remove_trailing_skips)
 {
+    value_check_frozen(rbself);
     Value value  = rb2cxx::object<Value>(rbself);
 
     MemoryLayout layout = Typelib::layout_of(value.getType(),
@@ -557,6 +558,7 @@ VALUE value_endian_swap(VALUE self)
 static
 VALUE value_endian_swap_b(VALUE self, VALUE rb_compile)
 {
+    value_check_frozen(self);
     value_apply_changes(self);
     Value& value = rb2cxx::object<Value>(self);
     endian_swap(value);
@@ -671,6 +673,7 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
 /* Initializes the memory to 0 */
 static VALUE value_zero(VALUE self)
 {
+    value_check_frozen(self);
     Value const& value(rb2cxx::object<Value>(self));
     Typelib::zero(value);
     return self;
@@ -678,6 +681,8 @@ static VALUE value_zero(VALUE self)
 
 static VALUE typelib_do_copy(VALUE, VALUE to, VALUE from)
 {
+    if (to != from)
+        value_check_frozen(to);
     Value v_from = rb2cxx::object<Value>(from);
     Value v_to   = rb2cxx::object<Value>(to);
 
-- 
2.43.0


From 6b9160fbb2b98b604ebbf424a76a0087f1953c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:06 +0000
Subject: [PATCH 131/132] fix: converted fields of frozen values could be
 changed, or made reading them fail

---
 bindings/ruby/lib/typelib/compound_type.rb | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 779354c..8d35bdc 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -90,6 +90,7 @@ module Typelib
 
             def apply_changes_from_converted_types
                 super()
+                return if @__typelib_frozen
                 self.class.converted_fields.each do |field_name|
                     if @fields[field_name]
                         @fields[field_name].apply_changes_from_converted_types
@@ -212,7 +213,7 @@ module Typelib
                         converted_fields.each do |field_name|
                             attr_name = "@#{FIELD_NANE_PREFIX}#{field_name}"
                             define_method("#{field_name}=") do |value|
-                                if !value.nil? && @field_types[field_name].needs_convertion_to_ruby?
+                                if !value.nil? && !@__typelib_frozen && @field_types[field_name].needs_convertion_to_ruby?
                                     instance_variable_set(attr_name, value)
                                 else
                                     set(field_name, value)
@@ -224,7 +225,8 @@ module Typelib
                                     v
                                 else
                                     v = get(field_name)
-                                    instance_variable_set(attr_name, v)
+                                    instance_variable_set(attr_name, v) if !@__typelib_frozen
+                                    v
                                 end
                             end
                         end
-- 
2.43.0


From ff57d6d78e50b59f9493a40967673abb2a871185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:54 +0000
Subject: [PATCH 132/132] fix: stopping a visit inside an array only skipped
 the rest of the array

What comes after the array was visited all the same, as the answer of the
visitor was not passed on.
---
 typelib/value.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typelib/value.cc b/typelib/value.cc
index 5c1def3..2b5dbfe 100644
--- a/typelib/value.cc
+++ b/typelib/value.cc
@@ -118,7 +118,8 @@ namespace Typelib
         uint8_t*& element = m_dispatcher->m_stack.back();
 
         Type const& array_type(a.getIndirection());
-        for (size_t i = 0; i < a.getDimension(); ++i)
+        size_t i = 0;
+        for (; i < a.getDimension(); ++i)
         {
             element = base + array_type.getSize() * i;
             if (! m_dispatcher->TypeVisitor::visit_(array_type))
@@ -126,7 +127,8 @@ namespace Typelib
         }
 
         m_dispatcher->m_stack.pop_back();
-        return true;
+        // Not having seen all elements means that the visitor asked to stop
+        return i == a.getDimension();
     }
     bool ValueVisitor::visit_(Value const& v, Container const& c)
     { return c.visit(v.getData(), *this); }
-- 
2.43.0

