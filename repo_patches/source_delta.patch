From 5746a96ecf4dcceb2bc06c47595ffeb2f3e8ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 01/87] fix: isValidTypename accepts trailing garbage after
 modifiers or unbalanced template marks

---
 typelib/typename.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index b4a8bc6..788e09c 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -59,7 +59,12 @@ namespace Typelib
 
         size_t modifiers = s.find_first_of("*[");
         if (modifiers != string::npos)
+        {
+            // Only other modifiers can follow the first one
+            if (s.find_first_not_of("* ", modifiers) != string::npos)
+                return false;
             return isValidIdentifier(string(s, pos, modifiers - pos));
+        }
         else
             return isValidIdentifier(string(s, pos));
 
@@ -177,7 +182,10 @@ namespace Typelib
     {
         if (name.empty())
             return false;
-        return isValidTypename(name, 0, absolute, false).first;
+        pair<bool, int> valid = isValidTypename(name, 0, absolute, false);
+        // The parsing of nested template arguments stops at ',' and '>'. It is
+        // an error if it happens at toplevel
+        return valid.first && valid.second == static_cast<int>(name.length());
     }
 
     bool isValidNamespace(const string& name, bool absolute)
-- 
2.43.0


From 9caf6736baf6ebf91977bc0a690a1cc9345b6cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 02/87] fix: accept pointers to arrays and to template
 instances as type names

---
 typelib/typename.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 788e09c..f808ba6 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -99,6 +99,17 @@ namespace Typelib
         return result;
     }
 
+    /** Returns the index of the last pointer mark in the sequence of pointer
+     * marks that directly follows the character at \c i, or \c i itself if
+     * there are none
+     */
+    static unsigned int skipPointerMarks(std::string const& s, unsigned int i)
+    {
+        while (i + 1 < s.length() && s[i + 1] == '*')
+            ++i;
+        return i;
+    }
+
     static pair<bool, int> isValidTypename(std::string const& s, int pos, bool absolute, bool accept_integers)
     {
         unsigned int start_pos = pos;
@@ -129,6 +140,7 @@ namespace Typelib
                         return make_pair(false, i);
                 }
 
+                i = skipPointerMarks(s, i);
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
@@ -156,12 +168,13 @@ namespace Typelib
                 if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
                     return make_pair(false, start_pos);
 
+                i = skipPointerMarks(s, i);
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
                     if (s[i + 1] == '/')
                         i++;
-                    else if (s[i + 1] != '>' && s[i + 1] != '[')
+                    else if (s[i + 1] != '>' && s[i + 1] != '[' && s[i + 1] != ',')
                         return make_pair(false, i + 1);
                 }
             }
-- 
2.43.0


From 8a4d40a20bb6d6863b10d7e12f56ec96cbdfb564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 03/87] fix: isValidTypename accepts unbalanced or malformed
 array brackets

---
 typelib/typename.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index f808ba6..a0e459d 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -152,21 +152,15 @@ namespace Typelib
             }
             else if (s[i] == '[')
             {
-                // start_pos == i if we are parsing an array of templates
-                if (start_pos != i && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
+                // start_pos == i if we are parsing an array of templates or a
+                // multidimensional array
+                if (start_pos == i ? (i == 0) : !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
                     return make_pair(false, i);
 
-                if (i + 1 == s.length())
+                size_t end = s.find_first_not_of("0123456789", i + 1);
+                if (end == string::npos || end == i + 1 || s[end] != ']')
                     return make_pair(false, i);
-
-                start_pos = i + 1;
-            }
-            else if (s[i] == ']')
-            {
-                if (start_pos == i)
-                    return make_pair(false, start_pos);
-                if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
-                    return make_pair(false, start_pos);
+                i = end;
 
                 i = skipPointerMarks(s, i);
                 start_pos = i + 1;
@@ -178,6 +172,8 @@ namespace Typelib
                         return make_pair(false, i + 1);
                 }
             }
+            else if (s[i] == ']')
+                return make_pair(false, i);
             else if (s[i] == '>' || s[i] == ',')
             {
                 if (!isValidTypeBasename(string(s, start_pos, i - start_pos), true, true))
-- 
2.43.0


From 6f20f6e031e4a2f83f182dfd6e3668b8304bfc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 04/87] fix: Registry::isSame compares every type with the
 first type of the other registry

---
 typelib/registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 3ed6c94..8fb550c 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -562,9 +562,11 @@ namespace Typelib
 
         while (left_it != left_end)
         {
+            if (left_it->first != right_it->first)
+                return false;
             if (!left_it->second.type->isSame(*right_it->second.type))
                 return false;
-            left_it++; left_end++;
+            left_it++; right_it++;
         }
         return true;
     }
-- 
2.43.0


From 05d3407a813c4e950e189641b8cab029b9d84f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 05/87] fix: adding a type hides the types of inner namespaces
 depending on how names sort

name resolution after Registry::add() differed from the one computed by
setDefaultNamespace() on the same set of types
---
 typelib/registry.cc | 40 ++++++++++++++++++++++------------------
 typelib/registry.hh |  5 +++++
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 8fb550c..19bdf96 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -66,15 +66,19 @@ namespace Typelib
         for (TypeMap::iterator it = m_global.begin(); it != m_global.end(); ++it)
             m_current.insert( make_pair(it->first, it->second) );
 
-        importNamespace(NamespaceMarkString);
-        std::string cur_space = NamespaceMarkString;
+        std::vector<std::string> const spaces = getEnclosingNamespaces();
+        for (size_t i = 0; i < spaces.size(); ++i)
+            importNamespace(spaces[i], true);
+    }
+
+    std::vector<std::string> Registry::getEnclosingNamespaces() const
+    {
+        std::vector<std::string> result(1, NamespaceMarkString);
         NameTokenizer tokens( m_namespace );
         NameTokenizer::const_iterator ns_it = tokens.begin();
         for (; ns_it != tokens.end(); ++ns_it)
-        {
-            cur_space += *ns_it + NamespaceMarkString;
-            importNamespace(cur_space, true);
-        }
+            result.push_back(result.back() + *ns_it + NamespaceMarkString);
+        return result;
     }
 
     std::string Registry::getDefaultNamespace() const { return m_namespace; }
@@ -342,28 +346,28 @@ namespace Typelib
         m_global.insert (make_pair(name, regtype));
         m_current.insert(make_pair(name, regtype));
 
-        NameTokenizer tokens( m_namespace );
-        NameTokenizer::const_iterator ns_it = tokens.begin();
-        std::string cur_space = NamespaceMarkString;
-        while(true)
+        // Register the relative names, for each of the namespaces that enclose
+        // the default namespace
+        std::vector<std::string> const spaces = getEnclosingNamespaces();
+        for (size_t i = 0; i < spaces.size(); ++i)
         {
+            std::string const& cur_space = spaces[i];
             if (name.size() <= cur_space.size() || string(name, 0, cur_space.size()) != cur_space)
                 break;
 
             string cur_name  = getRelativeName(name, cur_space);
 
-            // Check if there is already a type with the same relative name
-            TypeMap::iterator it = m_current.find(cur_name);
-            if (it == m_current.end() || !nameSort(it->second.type->getName(), name))
+            // Types from the innermost namespaces have priority. See
+            // updateCurrentNameMap()
+            bool hidden = false;
+            for (size_t j = i + 1; j < spaces.size() && !hidden; ++j)
+                hidden = (m_global.count(spaces[j] + cur_name) != 0);
+
+            if (!hidden)
             {
                 m_current.erase(cur_name);
                 m_current.insert(make_pair(cur_name, regtype));
             }
-
-            if (ns_it == tokens.end())
-                break;
-            cur_space += *ns_it + NamespaceMarkString;
-            ++ns_it;
         }
     }
 
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 79411c8..6087344 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -121,6 +121,11 @@ namespace Typelib
          */
         void updateCurrentNameMap();
 
+        /** Returns the namespaces in which relative names are looked up: the
+         * root namespace first, and the default namespace last
+         */
+        std::vector<std::string> getEnclosingNamespaces() const;
+
     public:
         typedef RegistryIterator Iterator;
 
-- 
2.43.0


From 41a6efa9c60c7a3f376d7e2f789f20cb7248188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 06/87] fix: Registry::remove leaves the names hidden by the
 removed types unresolvable

---
 typelib/registry.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 19bdf96..2c4d2c6 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -664,6 +664,11 @@ namespace Typelib
             else ++current_it;
         }
 
+        // The removed names might have been hiding types from outer namespaces
+        std::vector<std::string> const spaces = getEnclosingNamespaces();
+        for (size_t i = spaces.size(); i > 0; --i)
+            importNamespace(spaces[i - 1], false);
+
         return types;
     }
 
-- 
2.43.0


From 8d8da5bf1bf7c9929e4577af6bd8436a5549e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 07/87] fix: Registry::copySourceIDs overwrites the source ID
 of a type with the one of its aliases

---
 typelib/registry.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 2c4d2c6..5dd27da 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -191,7 +191,12 @@ namespace Typelib
 
             string source_id = other_it.getSource();
             if (!source_id.empty() && it.getSource().empty())
-                setSourceID(*it, source_id);
+            {
+                if (it.isAlias())
+                    m_global.find(it.getName())->second.source_id = source_id;
+                else
+                    setSourceID(*it, source_id);
+            }
         }
     }
 
-- 
2.43.0


From 2bea00fa545c38cf60e575e7954d3d0a23fdfdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 08/87] fix: Registry::minimal(name) loses the persistence and
 source ID of aliases

---
 typelib/registry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 5dd27da..b8962fc 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -216,7 +216,7 @@ namespace Typelib
             {
                 if (!it.isAlias()) continue;
                 if (result->has(it->getName(), false))
-                    result->alias(it->getName(), it.getName());
+                    result->alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
             }
         }
 
-- 
2.43.0


From db598305b92b526f1f63fab26ef491fb4b305afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 09/87] fix: Registry::resize dereferences a null pointer on
 unknown type names

---
 typelib/registry.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index b8962fc..5e1d751 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -586,6 +586,12 @@ namespace Typelib
         // First, do a copy of new_sizes for our own use. Most importantly, we
         // resolve aliases
         SizeMap sizes;
+        for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
+                it != new_sizes.end(); ++it)
+        {
+            if (!get_(it->first))
+                throw Undefined(it->first);
+        }
         for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
                 it != new_sizes.end(); ++it)
         {
-- 
2.43.0


From 0c8af9910f2541d16403df3172ed364ad2e1d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 10/87] fix: Registry::resize recurses infinitely on recursive
 types and shifts fields twice

A compound whose fields' size changes compensate each other was processed
each time it was referenced
---
 typelib/typemodel.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index bfe0c67..950f406 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -140,15 +140,14 @@ namespace Typelib
     bool Type::resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
         size_t old_size = getSize();
-        if (new_sizes.count(getName()))
+        // Register the type before resizing it, as types can be recursive. It
+        // also ensures that a type is processed only once
+        if (!new_sizes.insert(make_pair(getName(), make_pair(old_size, old_size))).second)
             return true;
-        else if (do_resize(registry, new_sizes))
-        {
-            new_sizes.insert(make_pair(getName(), make_pair(old_size, getSize()) ));
-            return true;
-        }
-        else
-            return false;
+
+        bool result = do_resize(registry, new_sizes);
+        new_sizes[getName()] = make_pair(old_size, getSize());
+        return result;
     }
 
     bool Type::do_resize(Registry& into, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
-- 
2.43.0


From 9e77b0b9b660f6e5a0d052ecea3a3e57713c3bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 11/87] fix: a null type compares as the same as any other type
 that has the same name

---
 typelib/typemodel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 91d6e15..451c3e6 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -257,7 +257,7 @@ namespace Typelib
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
         virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
-        { return other.getName() == getName(); }
+        { return Type::do_compare(other, equality, stack) && other.getName() == getName(); }
 
     private:
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new NullType(*this); }
-- 
2.43.0


From 4ff95ba42ba9a75ab79f028662de0d81b981dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 12/87] fix: comparing types is not symmetric when the same
 definition exists under two names

It leads to spurious DefinitionMismatch errors in Registry::merge
---
 typelib/typemodel.cc | 24 +++++++++++++-----------
 typelib/typemodel.hh | 13 ++++++++-----
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 950f406..8a70586 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -78,18 +78,20 @@ namespace Typelib
         if (&left == &right)
             return true;
 
-        RecursionStack::const_iterator it = stack.find(&left);
-        if (it != stack.end())
+        /** If we are already comparing left and right, everything is fine
+         * (return true). Note that left can very well be compared with more
+         * than one type, as a registry can contain the same definition under
+         * different names
+         */
+        typedef RecursionStack::const_iterator StackIterator;
+        std::pair<StackIterator, StackIterator> range = stack.equal_range(&left);
+        for (StackIterator it = range.first; it != range.second; ++it)
         {
-            /** One type cannot be equal to two different types. So either we
-             * are already comparing left and right and it is fine (return
-             * true). Or we are comparing it with a different type and that
-             * means the two types are different (return false)
-             */
-            return (&right == it->second);
+            if (&right == it->second)
+                return true;
         }
 
-        RecursionStack::iterator new_it = stack.insert( make_pair(&left, &right) ).first;
+        RecursionStack::iterator new_it = stack.insert( make_pair(&left, &right) );
         try {
             return left.do_compare(right, equality, stack);
         }
@@ -236,7 +238,7 @@ namespace Typelib
             m_values[it->first].insert(it->second.begin(), it->second.end());
     }
 
-    bool OpaqueType::do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+    bool OpaqueType::do_compare(Type const& other, bool equality, RecursionStack& stack) const
     { return Type::do_compare(other, equality, stack) && getName() == other.getName(); }
 
     Numeric::Numeric(std::string const& name, size_t size, NumericCategory category)
@@ -378,7 +380,7 @@ namespace Typelib
     Type* Compound::do_merge(Registry& registry, RecursionStack& stack) const
     {
         unique_ptr<Compound> result(new Compound(getName()));
-        RecursionStack::iterator onStackIter = stack.insert(make_pair(this, result.get())).first;
+        RecursionStack::iterator onStackIter = stack.insert(make_pair(this, result.get()));
 
         try  {
             for (FieldList::const_iterator it = m_fields.begin(); it != m_fields.end(); ++it)
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 451c3e6..c58f931 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -164,8 +164,11 @@ namespace Typelib
          */
         Type const& merge(Registry& registry) const;
 
-        /** Foreign => local mapping for merge() and isSame() */
-        typedef std::map<Type const*, Type const*> RecursionStack;
+        /** Foreign => local mapping for merge(), and set of the pairs of types
+         * that are being compared for isSame() and canCastTo(). In the latter
+         * case, a type can be compared with more than one other type.
+         */
+        typedef std::multimap<Type const*, Type const*> RecursionStack;
 
         /** Base merge method. The default implementation should be fine for
          * most types.
@@ -220,7 +223,7 @@ namespace Typelib
          * The base definition compares the name, size and category of the
          * types.
          */
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
 
         /** Called by do_compare to compare +left+ to +right+. This method takes
          * into account potential loops in the recursion
@@ -256,7 +259,7 @@ namespace Typelib
     public:
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const
         { return Type::do_compare(other, equality, stack) && other.getName() == getName(); }
 
     private:
@@ -272,7 +275,7 @@ namespace Typelib
     public:
         OpaqueType(std::string const& name, size_t size) : Type(name, size, Type::Opaque) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new OpaqueType(*this); }
     };
 
-- 
2.43.0


From 83e2d3addb2e237a1195682fe1303a902449591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 13/87] fix: canCastTo accepts containers and arrays of
 recursive types that differ

---
 typelib/typemodel.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 8a70586..5002751 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -540,7 +540,14 @@ namespace Typelib
             return false;
 
         Array const& array = static_cast<Array const&>(type);
-        return (m_dimension == array.m_dimension) && Indirect::do_compare(type, true, stack);
+        if (m_dimension != array.m_dimension)
+            return false;
+        if (equality)
+            return Indirect::do_compare(type, true, stack);
+
+        // What is on the stack is assumed to be castable, not equal
+        RecursionStack equality_stack;
+        return Indirect::do_compare(type, true, equality_stack);
     }
     Type* Array::do_merge(Registry& registry, RecursionStack& stack) const
     {
@@ -611,7 +618,14 @@ namespace Typelib
             return false;
 
         Container const& container = static_cast<Container const&>(other);
-        return (getFactory() == container.getFactory()) && Indirect::do_compare(other, true, stack);
+        if (getFactory() != container.getFactory())
+            return false;
+        if (equality)
+            return Indirect::do_compare(other, true, stack);
+
+        // What is on the stack is assumed to be castable, not equal
+        RecursionStack equality_stack;
+        return Indirect::do_compare(other, true, equality_stack);
     }
 
     Type* Container::do_merge(Registry& registry, RecursionStack& stack) const
-- 
2.43.0


From 8664d8e0c2934fed00075fc0651460290209b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 14/87] fix: merging a recursive compound leaves dangling
 references when it fails

---
 typelib/typemodel.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 5002751..060b215 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -388,6 +388,14 @@ namespace Typelib
         }
         catch(...) {
             stack.erase(onStackIter);
+            // Recursive types: types that refer to the one we could not create
+            // are already in the registry
+            std::set<Type*> dangling = registry.remove(*result);
+            for (std::set<Type*>::iterator it = dangling.begin(); it != dangling.end(); ++it)
+            {
+                if (*it != result.get())
+                    delete *it;
+            }
             throw;
         }
 
-- 
2.43.0


From ba985ad3e5c7178be73b712041f4a01ebf9dfc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 15/87] fix: layout_of rejects arrays of pointers and opaques
 when told to accept them

---
 typelib/memory_layout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index e8272f2..8d195fd 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -571,7 +571,7 @@ bool MemLayout::Visitor::visit_ (Enum    const& type)
 bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor array_visitor(subops);
+    MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
-- 
2.43.0


From cb495915e6d19b4e322eb10590c086e2977fda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 16/87] fix: MemoryLayout::simplify removes unrelated
 operations when an array has no content

---
 typelib/memory_layout.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 8d195fd..1e57bde 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -168,6 +168,7 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
 
         if (op == FLAG_INIT_REPEAT)
         {
+            size_t block_i = simplified.init_size();
             if (current_op_count)
                 simplified.pushInitSkip(current_op_count);
 
@@ -194,7 +195,7 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.init_ops.resize(content_i - 4);
+                simplified.init_ops.resize(block_i);
             }
             else
             {
@@ -268,6 +269,7 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
 
         if (op == FLAG_ARRAY)
         {
+            size_t block_i = simplified.size();
             if (current_op_count)
                 simplified.pushGenericOp(current_op, current_op_count);
 
@@ -312,7 +314,7 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.ops.resize(content_i - 4);
+                simplified.ops.resize(block_i);
             }
             else
             {
-- 
2.43.0


From 09e34bebe50b249f3daa6de3eefe3095dea25ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 17/87] fix: zero-length arrays of containers break init, zero,
 copy, compare and destroy

---
 typelib/memory_layout.cc | 3 +++
 typelib/value_ops.cc     | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 1e57bde..e573224 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -98,6 +98,9 @@ void MemoryLayout::pushInitEnd()
 
 void MemoryLayout::pushInitRepeat(size_t dimension, MemoryLayout const& array_ops)
 {
+    if (dimension == 0)
+        return;
+
     pushInitGenericOp(FLAG_INIT_REPEAT, dimension);
     init_ops.insert(init_ops.end(), array_ops.init_begin(), array_ops.init_end());
     pushInitEnd();
diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 104f4cb..2d1e841 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -312,6 +312,8 @@ boost::tuple< boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(buffer, it) = zero(buffer, element_it, end);
 
@@ -417,6 +419,8 @@ boost::tuple< boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(buffer, it) = destroy(buffer, element_it, end);
 
@@ -474,6 +478,8 @@ boost::tuple< boost::uint8_t*, boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(out_buffer, in_buffer, it) =
                         copy(out_buffer, in_buffer, element_it, end);
@@ -534,6 +540,8 @@ boost::tuple<bool, boost::uint8_t*, boost::uint8_t*, MemoryLayout::const_iterato
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                 {
                     bool is_equal;
-- 
2.43.0


From 298b4c131f90f1cb22c4124ca12e3c10adb08654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 18/87] fix: loading an empty container leaves the existing
 elements in place

---
 typelib/value_ops.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 2d1e841..6d79e9e 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -172,7 +172,11 @@ boost::tuple<size_t, MemoryLayout::const_iterator> ValueOps::load(
                 boost::uint64_t element_count;
                 stream.read(reinterpret_cast< boost::uint8_t* >(&element_count), sizeof( boost::uint64_t ));
                 if (element_count == 0)
+                {
+                    if (type->getElementCount(container_ptr) != 0)
+                        type->clear(container_ptr);
                     it = MemoryLayout::skipBlock(++it, end);
+                }
                 else
                 {
                     it = type->load(container_ptr, element_count, stream, ++it, end);
-- 
2.43.0


From d53034f9be730b3a99df58595fa3b578dcdd5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 19/87] fix: errors are ignored when dumping to a FILE

---
 typelib/value_ops.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 6d79e9e..96d5120 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -702,7 +702,8 @@ struct FileOutputStream : public OutputStream
 
     void write(boost::uint8_t const* data, size_t size)
     {
-        ::fwrite(data, size, 1, fd);
+        if (size != 0 && ::fwrite(data, size, 1, fd) != 1)
+            throw std::runtime_error("write failed in ValueOps::dump");
     }
 };
 void Typelib::dump(Value v, FILE* fd)
-- 
2.43.0


From 3640271b5ffbb26729bcb4a93a251fc69f670300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 20/87] fix: integer overflow when loading a vector from
 corrupted data

---
 lang/csupport/containers.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b537173..6812cba 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -6,6 +6,7 @@
 #include <boost/tuple/tuple.hpp>
 #include <string.h>
 #include <limits>
+#include <stdexcept>
 
 #include <iostream>
 
@@ -95,6 +96,9 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     Type const& element_t = getIndirection();
     size_t element_size = getIndirection().getSize();
 
+    if (element_size != 0 && new_size > ptr->max_size() / element_size)
+        throw std::length_error("requested vector size is too big");
+
     size_t old_raw_size   = ptr->size();
     size_t old_size       = getElementCount(ptr);
     size_t new_raw_size   = new_size * element_size;
-- 
2.43.0


From 1b0bbc9cf7ae4b7499d36d69327aebcca2f86357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 21/87] fix: pushing an element of a vector at the end of that
 vector reads freed memory

---
 lang/csupport/containers.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 6812cba..c32b02b 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -153,8 +153,17 @@ void Vector::push(void* ptr, Value v) const
     std::vector<uint8_t>* vector_ptr =
         reinterpret_cast< std::vector<uint8_t>* >(ptr);
 
+    // The value might be one of this vector's own elements
+    size_t self_offset = vector_ptr->size();
+    uint8_t* v_data = reinterpret_cast<uint8_t*>(v.getData());
+    if (!vector_ptr->empty() && v_data >= &vector_ptr->front() && v_data <= &vector_ptr->back())
+        self_offset = v_data - &vector_ptr->front();
+    bool is_self = (self_offset != vector_ptr->size());
+
     size_t size = getElementCount(ptr);
     resize(vector_ptr, size + 1);
+    if (is_self)
+        v = Value(&(*vector_ptr)[self_offset], v.getType());
     Typelib::copy(
             Value(&(*vector_ptr)[size * getIndirection().getSize()], getIndirection()),
             v);
-- 
2.43.0


From 2fd3067d0021e8907e51197921e8055d258028b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 22/87] fix: vectors are dumped and loaded wrongly with layouts
 in which padding is not merged

---
 lang/csupport/containers.cc | 14 ++++++++++++--
 lang/csupport/containers.hh |  2 ++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index c32b02b..dfd5546 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -310,6 +310,16 @@ void Vector::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
     }
 }
 
+// Layouts that do not merge padding bytes with the data can have more than one
+// operation even if the element can be copied with a memcpy
+bool Vector::isMemcpyBlock(MarshalOps::const_iterator begin, MarshalOps::const_iterator end) const
+{
+    return (end - begin > 2) &&
+        *begin == MemLayout::FLAG_MEMCPY &&
+        *(begin + 1) == getIndirection().getSize() &&
+        *(begin + 2) == MemLayout::FLAG_END;
+}
+
 Container::MarshalOps::const_iterator Vector::dump(
         void const* container_ptr, size_t element_count, OutputStream& stream,
         MarshalOps::const_iterator const begin, MarshalOps::const_iterator const end) const
@@ -318,7 +328,7 @@ Container::MarshalOps::const_iterator Vector::dump(
         reinterpret_cast< std::vector<uint8_t> const* >(container_ptr);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isElementMemcpy() && isMemcpyBlock(begin, end))
     {
         // optimize a bit: do a huge memcpy if possible
         size_t size       = *(++it) * element_count;
@@ -352,7 +362,7 @@ Container::MarshalOps::const_iterator Vector::load(
     resize(vector_ptr, element_count);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isElementMemcpy() && isMemcpyBlock(begin, end))
     {
         size_t size       = *(++it) * element_count;
         stream.read(&(*vector_ptr)[0], size);
diff --git a/lang/csupport/containers.hh b/lang/csupport/containers.hh
index 75a6d6f..63904d5 100644
--- a/lang/csupport/containers.hh
+++ b/lang/csupport/containers.hh
@@ -12,6 +12,8 @@ class Vector : public Typelib::Container
     void erase(std::vector<uint8_t>* ptr, size_t idx) const;
     std::string getIndirectTypeName(std::string const& element_name) const;
 
+    bool isMemcpyBlock(MarshalOps::const_iterator begin, MarshalOps::const_iterator end) const;
+
     Typelib::MemoryLayout element_layout;
 
 public:
-- 
2.43.0


From 69b30772062441e859a41f7385f1f70a4b287082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 23/87] fix: Registry::resize does not update the vectors of
 the resized types

---
 lang/csupport/containers.cc | 10 ++++++++++
 lang/csupport/containers.hh |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index dfd5546..8e5e98e 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -45,6 +45,16 @@ MemoryLayout Vector::getElementLayout(Type const& element_t)
     }
 }
 
+bool Vector::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
+{
+    if (!Container::do_resize(registry, new_sizes))
+        return false;
+
+    // The layout of the elements changes along with their size
+    element_layout = getElementLayout(getIndirection());
+    return true;
+}
+
 size_t Vector::getElementCount(void const* ptr) const
 {
     size_t byte_count = reinterpret_cast< std::vector<int8_t> const* >(ptr)->size();
diff --git a/lang/csupport/containers.hh b/lang/csupport/containers.hh
index 63904d5..ac29876 100644
--- a/lang/csupport/containers.hh
+++ b/lang/csupport/containers.hh
@@ -14,6 +14,8 @@ class Vector : public Typelib::Container
 
     bool isMemcpyBlock(MarshalOps::const_iterator begin, MarshalOps::const_iterator end) const;
 
+    bool do_resize(Typelib::Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
+
     Typelib::MemoryLayout element_layout;
 
 public:
-- 
2.43.0


From af791790db2082ba4f0d702762e1e217c9036bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 24/87] fix: compiled endian swap uses an uninitialized
 iterator on zero-length arrays

---
 typelib/endianness.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 2f148f1..ac2516a 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -169,7 +169,23 @@ namespace Typelib {
                     // And swap as many elements as needed
                     ++it;
 
-                    std::vector<size_t>::const_iterator array_end;
+                    std::vector<size_t>::const_iterator array_end = it;
+                    if (array_size == 0)
+                    {
+                        // Find the end of the array
+                        for (size_t depth = 0; depth > 0 || *array_end != FLAG_END; ++array_end)
+                        {
+                            if (*array_end == FLAG_SKIP)
+                                ++array_end;
+                            else if (*array_end == FLAG_ARRAY)
+                            {
+                                ++depth;
+                                array_end += 2;
+                            }
+                            else if (*array_end == FLAG_END)
+                                --depth;
+                        }
+                    }
                     for (size_t i = 0; i < array_size; ++i)
                     {
                         boost::tie(output_offset, array_end) =
-- 
2.43.0


From 4b0ba98d37224022082484b66c6c451aa746a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 25/87] fix: compiled endian swap ignores the trailing padding
 of nested structures

---
 typelib/endianness.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index ac2516a..ddbb0f9 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -114,6 +114,14 @@ namespace Typelib {
             dispatch(it->getType());
             m_output_index = new_index + it->getType().getSize();
         }
+
+        // Padding at the end of the structure
+        size_t end_index = base_index + type.getSize();
+        if (end_index > m_output_index)
+        {
+            skip(end_index - m_output_index);
+            m_output_index = end_index;
+        }
         return true;
     }
 
-- 
2.43.0


From bce25d616fa7f42a21c3cedcbe006810201c1d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 26/87] fix: opaque fields are missing from the lines of CSV
 output

---
 typelib/csvoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index d7b4f45..4929288 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -95,7 +95,7 @@ namespace
             return true;
         }
         using ValueVisitor::visit_;
-        bool visit_ (Value value, OpaqueType const& type)
+        bool visit_ (Value const& value, OpaqueType const& type)
         {
             display("<" + type.getName() + ">");
             return true;
-- 
2.43.0


From 7beb5349f8bb101a56e4a9924829910ea37f5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 27/87] fix: TLB export does not escape all names and special
 characters

---
 lang/tlb/export.cc | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 19e6185..30938a3 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -50,15 +50,20 @@ namespace
 
     std::string xmlEscape(std::string const& source)
     {
-        string result = source;
-        size_t pos = result.find_first_of("<>");
-        while (pos != string::npos)
+        string result;
+        for (size_t i = 0; i < source.length(); ++i)
         {
-            if (result[pos] == '<')
-                result.replace(pos, 1, "&lt;");
-            else if (result[pos] == '>')
-                result.replace(pos, 1, "&gt;");
-            pos = result.find_first_of("<>");
+            switch(source[i])
+            {
+                case '<':  result += "&lt;"; break;
+                case '>':  result += "&gt;"; break;
+                case '&':  result += "&amp;"; break;
+                case '"':  result += "&quot;"; break;
+                case '\n': result += "&#10;"; break;
+                case '\r': result += "&#13;"; break;
+                case '\t': result += "&#9;"; break;
+                default: result += source[i];
+            }
         }
 
         return result;
@@ -78,12 +83,12 @@ namespace
             MetaData::Values values = it->second;
             if (values.empty())
             {
-                stream << "<metadata key=\"" << key << "\" />";
+                stream << "<metadata key=\"" << xmlEscape(key) << "\" />";
             }
             else
             {
                 for (MetaData::Values::const_iterator it_value = values.begin(); it_value != values.end(); ++it_value)
-                    stream << "<metadata key=\"" << key << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                    stream << "<metadata key=\"" << xmlEscape(key) << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
             }
         }
         return stream.str();
@@ -121,7 +126,7 @@ namespace
     {
         m_stream
             << m_indent
-            << "<field name=\"" << field.getName() << "\""
+            << "<field name=\"" << xmlEscape(field.getName()) << "\""
             << " type=\""   << xmlEscape(field.getType().getName())  << "\""
             << " offset=\"" << field.getOffset() << "\">\n";
         m_stream << m_indent << emitMetaData(field.getMetaData()) << "\n";
@@ -150,7 +155,7 @@ namespace
     bool TlbExportVisitor::visit_(Numeric const& type)
     {
         m_stream
-            << "<numeric name=\"" << type.getName() << "\" "
+            << "<numeric name=\"" << xmlEscape(type.getName()) << "\" "
             << "category=\"" << getStringCategory(type.getNumericCategory()) << "\" "
             << "size=\"" << type.getSize() << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
@@ -160,7 +165,7 @@ namespace
     }
     bool TlbExportVisitor::visit_ (NullType const& type)
     {
-        m_stream << "<null " << " name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<null " << " name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</null>";
         return true;
@@ -207,11 +212,11 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
-                m_stream << m_indent << "<value symbol=\"" << it->first << "\" value=\"" << it->second << "\"/>\n";
+                m_stream << m_indent << "<value symbol=\"" << xmlEscape(it->first) << "\" value=\"" << it->second << "\"/>\n";
         }
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</enum>";
-- 
2.43.0


From a921f38171788c6db40836ec3dc65552c94b3b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 28/87] fix: metadata values that contain an end-of-CDATA
 marker break TLB documents

---
 lang/tlb/export.cc | 15 ++++++++++++++-
 lang/tlb/import.cc | 14 +++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 30938a3..0ac4de8 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -69,6 +69,19 @@ namespace
         return result;
     }
 
+    /** CDATA sections cannot contain the end-of-section marker */
+    std::string cdata(std::string const& source)
+    {
+        string result = source;
+        size_t pos = result.find("]]>");
+        while (pos != string::npos)
+        {
+            result.replace(pos, 3, "]]]]><![CDATA[>");
+            pos = result.find("]]>", pos + 12);
+        }
+        return "<![CDATA[" + result + "]]>";
+    }
+
     std::string TlbExportVisitor::emitMetaData(Type const& type) const
     {
         return emitMetaData(type.getMetaData());
@@ -88,7 +101,7 @@ namespace
             else
             {
                 for (MetaData::Values::const_iterator it_value = values.begin(); it_value != values.end(); ++it_value)
-                    stream << "<metadata key=\"" << xmlEscape(key) << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                    stream << "<metadata key=\"" << xmlEscape(key) << "\">" << cdata(*it_value) << "</metadata>\n";
             }
         }
         return stream.str();
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 9a6b46e..1537d58 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -69,18 +69,22 @@ namespace
             string key = getAttribute<string>(xml, "key");
             metadata.add(key, MetaData::Values());
 
-            // Look at a child CDATA block
+            // Look at the children CDATA blocks. A value is split in more than
+            // one block if it contains the marker that ends CDATA blocks
+            bool has_value = false;
+            std::string value;
             xmlNodePtr cdata = xml->children;
             for(; cdata; cdata=cdata->next)
             {
                 if (cdata->type == XML_CDATA_SECTION_NODE)
                 {
-                    std::string value = reinterpret_cast<char const*>(cdata->content);
-                    metadata.add(key, value);
-                    break;
+                    has_value = true;
+                    if (cdata->content)
+                        value += reinterpret_cast<char const*>(cdata->content);
                 }
             }
-
+            if (has_value)
+                metadata.add(key, value);
         }
     }
 
-- 
2.43.0


From 6842b46df44c22f43a0238ff07a9f673efbf1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 29/87] fix: the source ID of containers is lost by TLB import

---
 lang/tlb/import.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 1537d58..c8f6262 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -225,6 +225,8 @@ namespace
             // allow a proper call to resize() later if needed.
             factory.getRegistry().get_(*container).setSize(size);
         }
+        if (!node.file.empty())
+            factory.getRegistry().setSourceID(*container, node.file);
         loadMetaData(node, container->getMetaData());
         return container;
     }
-- 
2.43.0


From 3b164b24e54ca21dfdffd0ab79e1000137b9adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 30/87] fix: TLB import rejects the array and pointer nodes
 generated by the TLB export

---
 lang/tlb/import.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index c8f6262..e214011 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -159,7 +159,10 @@ namespace
 
             it = m_map.find(name);
             if (it != m_map.end())
+            {
+                loadMetaData(it->second, derived->getMetaData());
                 m_map.erase(it);
+            }
             return derived;
         }
     };
@@ -255,6 +258,10 @@ namespace
     }
 
 
+    // Pointers and arrays are built from their name. See Factory::build
+    Type const* load_derived(TypeNode const& node, Factory& factory)
+    { return factory.build(node.name); }
+
     Type const* load_compound(TypeNode const& node, Factory& factory)
     {
         Compound* compound = new Compound(node.name);
@@ -299,6 +306,8 @@ namespace
         { reinterpret_cast<const xmlChar*>("enum"),      load_enum },
         { reinterpret_cast<const xmlChar*>("compound"),  load_compound },
         { reinterpret_cast<const xmlChar*>("container"),  load_container },
+        { reinterpret_cast<const xmlChar*>("pointer"),   load_derived },
+        { reinterpret_cast<const xmlChar*>("array"),     load_derived },
         { 0, 0 }
     };
 
-- 
2.43.0


From dc36df0a04fbc3e1db6b16f354295f4bc0c4fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 31/87] fix: TLB import fails on aliases whose name ends with
 array or pointer modifiers

---
 lang/tlb/import.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index e214011..f8dd311 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -52,6 +52,9 @@ namespace
             , string const& file_ = string()
             , NodeLoader loader_ = 0 )
             : xml(node), name(name_), file(file_), loader(loader_) {}
+
+        bool isAlias() const
+        { return !xmlStrcmp(xml->name, reinterpret_cast<const xmlChar*>("alias")); }
     };
     typedef std::map<string, TypeNode> TypeMap;
 }
@@ -125,9 +128,13 @@ namespace
         Type const* build(string const name)
         {
             string basename = TypeBuilder::getBaseTypename(name);
+            // The name of an alias can look like the name of a derived type
+            TypeMap::iterator it = m_map.find(name);
+            if (it != m_map.end() && it->second.isAlias() && !m_registry.has(name, false))
+                basename = name;
 
             Type const* base = m_registry.get(basename);
-            TypeMap::iterator it = m_map.find(basename);
+            it = m_map.find(basename);
 
             if (! base)
             {
-- 
2.43.0


From 7fd1bf51f1f8858042d13eb37bfef728e8641fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 32/87] fix: derived type names with a malformed array
 dimension are accepted

---
 typelib/typebuilder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index bcec4a1..0fb6379 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -129,8 +129,13 @@ namespace Typelib
                 size_t start = full_name.find_last_of('[', end);
                 if (start == string::npos)
                     throw InvalidIndirectName(full_name + " is not a valid type name: array definition missing opening bracket at character " + boost::lexical_cast<std::string>(end));
+                string dimension(full_name, start + 1, end - start - 1);
+                if (dimension.find_first_not_of("0123456789") != string::npos)
+                    throw InvalidIndirectName(full_name + " is not a valid type name: invalid array dimension '" + dimension + "'");
                 new_mod.category = Type::Array;
-                new_mod.size = atoi(&full_name[start] + 1);
+                try { new_mod.size = boost::lexical_cast<int>(dimension); }
+                catch(boost::bad_lexical_cast const&)
+                { throw InvalidIndirectName(full_name + " is not a valid type name: invalid array dimension '" + dimension + "'"); }
                 end = start - 1;
                 modlist.push_front(new_mod);
             }
-- 
2.43.0


From 673b24dab9996533ead25fbdc093607d196cbdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 33/87] fix: singletons that use other singletons when created
 or destroyed

The server is deleted when its last singleton is. When this happened in the
constructor or destructor of another singleton, attach() and detach() went on
with the deleted server.
---
 typelib/utilmm/singleton/server.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/typelib/utilmm/singleton/server.cc b/typelib/utilmm/singleton/server.cc
index 5f37eb2..b551163 100644
--- a/typelib/utilmm/singleton/server.cc
+++ b/typelib/utilmm/singleton/server.cc
@@ -26,11 +26,14 @@ server::~server() {
 
 // modifiers
 void server::attach(std::string const &name, details::dummy_factory const& factory) {
-  single_map::iterator it = singletons.find(name);
-  if (it == singletons.end())
-    it = singletons.insert( single_map::value_type(name, factory.create()) ).first;
+  if (singletons.find(name) == singletons.end()) {
+    // The constructor may use other singletons: this server is deleted if it
+    // releases the last of them
+    dummy *to_add = factory.create();
+    instance().singletons.insert( single_map::value_type(name, to_add) );
+  }
 
-  it->second->incr_ref();
+  instance().get(name)->incr_ref();
 }
 
 bool server::detach(std::string const &name) {
@@ -41,7 +44,9 @@ bool server::detach(std::string const &name) {
 
     singletons.erase(i);
     delete to_del;
-    return singletons.empty();
+    // The destructor may have released the last of the other singletons, in
+    // which case this server is already deleted
+    return the_instance && the_instance->singletons.empty();
   }
   return false;
 }
-- 
2.43.0


From 5ef3c48c12023bebfbeaabdbcf5226f3e72fb17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 34/87] fix: ignore empty entries of TYPELIB_PLUGIN_PATH

A trailing ':' added an empty one, whose directory cannot be read, and the
creation of any registry failed.
---
 typelib/pluginmanager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typelib/pluginmanager.cc b/typelib/pluginmanager.cc
index 2172e00..baa44dc 100644
--- a/typelib/pluginmanager.cc
+++ b/typelib/pluginmanager.cc
@@ -52,7 +52,8 @@ PluginManager::PluginManager()
         size_t pos = s.find(delim);
         do {
             // use matched substr to lookup plugins in the directory
-            loadPluginFromDirectory(s.substr(0,pos));
+            if (pos != 0)
+                loadPluginFromDirectory(s.substr(0,pos));
             // and remote the matched substr from the stored copy
             s.erase(0, pos + delim.length());
         // do all this until we reach the end of the stored copy
-- 
2.43.0


From fc894f7a086f2c74a082378a2a306ad6b3f82e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 35/87] fix: the size of resized enumerations is lost in TLB
 files

---
 lang/tlb/export.cc | 6 +++++-
 lang/tlb/import.cc | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 0ac4de8..f0ceff3 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -225,7 +225,11 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" ";
+        // Enumerations have a natural size, unless they got resized
+        if (type.getSize() != sizeof(Enum::integral_type))
+            m_stream << "size=\"" << type.getSize() << "\" ";
+        m_stream << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index f8dd311..b23cdb0 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -253,6 +253,9 @@ namespace
             type->add(symbol, value);
         }
 
+        try { type->setSize(getAttribute<size_t>(node.xml, "size")); }
+        catch(Parsing::MissingAttribute&) {}
+
         factory.insert(node, type);
         return type;
     }
-- 
2.43.0


From 880586fe0464a827d1c223e9727e2a9f69af9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 36/87] fix: importing a TLB file changes containers that are
 registered already

---
 lang/tlb/import.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index b23cdb0..b84f6f6 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -226,16 +226,19 @@ namespace
         }
         catch(Parsing::MissingAttribute&) {}
 
+        size_t registered = factory.getRegistry().size();
         Type const* container = &Container::createContainer(factory.getRegistry(), kind, *indirect);
+        // Types that were already registered must not be changed
+        bool is_new = (factory.getRegistry().size() != registered);
         // We use zero size to indicate that the natural platform size should be
         // used
-        if (has_size && size != 0)
+        if (is_new && has_size && size != 0)
         {
             // Update the size to match the one saved in the registry. This is to
             // allow a proper call to resize() later if needed.
             factory.getRegistry().get_(*container).setSize(size);
         }
-        if (!node.file.empty())
+        if (is_new && !node.file.empty())
             factory.getRegistry().setSourceID(*container, node.file);
         loadMetaData(node, container->getMetaData());
         return container;
-- 
2.43.0


From b26da927a6077bbc2c2cf392a322299618cb8fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 37/87] fix: integers of sizes IDL does not have are exported
 as nothing

The definitions that used them were missing the type.
---
 lang/idl/export.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 859e4ba..755b981 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -214,6 +214,8 @@ namespace
                 case 2: m_front += "short"; break;
                 case 4: m_front += "long"; break;
                 case 8: m_front += "long long"; break;
+                default:
+                    throw UnsupportedType(type, "IDL has no integer of this size");
             }
         }
         else
-- 
2.43.0


From 4478b674e28aa4ea90f90c101017c17b1ac34c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 38/87] fix: containers of arrays are exported as invalid IDL

'sequence<long[3]>' is not IDL: refuse them, as is done for the other types
that cannot be represented.
---
 lang/idl/export.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 755b981..9b32640 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -69,6 +69,12 @@ namespace
         return ns;
     }
 
+    static void checkContainer(Container const& type)
+    {
+        if (type.getIndirection().getCategory() == Type::Array)
+            throw UnsupportedType(type, "sequences of arrays are not supported in IDL");
+    }
+
     class IDLTypeIdentifierVisitor : public TypeVisitor
     {
     public:
@@ -178,6 +184,8 @@ namespace
         }
         else
         {
+            checkContainer(type);
+
             // Get the basename for "kind"
             m_namespace = getIDLBase(type.getIndirection()).first;
             // We generate all containers in orogen::Corba, even if their
@@ -564,6 +572,7 @@ bool IDLExport::save
             {
                 // Generate a sequence, regardless of the actual container type
                 Container const& container_t = dynamic_cast<Container const&>(*type);
+                checkContainer(container_t);
                 stream << "sequence<" << getIDLAbsolute(container_t.getIndirection()) << "> " << base_name << ";";
             }
             else if (type->getCategory() == Type::Opaque)
-- 
2.43.0


From fc904f5b15c2250d58e349c70f563853116bb1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 39/87] fix: names of definitions are not always turned into
 IDL identifiers

Enumerations that are template instances kept their '<' and '>', template
arguments with spaces, '*', '[' or '-' were left as is, and blobs kept the
original name. Elements of arrays were stripped of two underscores instead
of one.
---
 lang/idl/export.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 9b32640..6918194 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -48,10 +48,10 @@ namespace
     }
 
     static string normalizeIDLName(std::string const& name) {
-        unsigned int template_mark;
         string result = name;
-        while ((template_mark = result.find_first_of("<>/,")) < result.length()) {
-            result.replace(template_mark, 1, "_");
+        for (size_t i = 0; i < result.length(); ++i) {
+            if (!isalnum(result[i]) && result[i] != ':')
+                result[i] = '_';
         }
 
         return stripLeadingUnderscore(result);
@@ -102,7 +102,6 @@ namespace
         {
             m_namespace = getIDLAbsoluteNamespace(type.getNamespace(), m_exporter);
             TypeVisitor::apply(type);
-            m_front = normalizeIDLName(m_front);
         }
     };
 
@@ -196,14 +195,13 @@ namespace
             std::string container_kind = Typelib::getTypename(type.kind());
             std::string element_name   = type.getIndirection().getName();
             boost::replace_all(element_name, Typelib::NamespaceMarkString, "_");
-            boost::replace_all(element_name, " ", "_");
-            m_front = container_kind + "_" + element_name + "_";
+            m_front = normalizeIDLName(container_kind + "_" + element_name + "_");
         }
 
         return true;
     }
     bool IDLTypeIdentifierVisitor::visit_(Compound const& type)
-    { m_front = type.getBasename();
+    { m_front = normalizeIDLName(type.getBasename());
         return true; }
     bool IDLTypeIdentifierVisitor::visit_(Numeric const& type)
     {
@@ -249,7 +247,7 @@ namespace
         return true;
     }
     bool IDLTypeIdentifierVisitor::visit_(Enum const& type)
-    { m_front = type.getBasename();
+    { m_front = normalizeIDLName(type.getBasename());
         return true; }
 
     class IDLExportVisitor : public TypeVisitor
@@ -360,7 +358,7 @@ namespace
 
     bool IDLExportVisitor::visit_ (Enum const& type)
     {
-        m_stream << m_indent << "enum " << stripLeadingUnderscore(type.getBasename()) << " { ";
+        m_stream << m_indent << "enum " << normalizeIDLName(type.getBasename()) << " { ";
 
         list<string> symbols;
         Enum::ValueMap const& values = type.values();
@@ -607,7 +605,7 @@ bool IDLExport::save
             string indent_string = string(ns_size * 4, ' ');
 
             adaptNamespace(stream, target_namespace);
-            stream << indent_string << "typedef sequence<octet> " << type->getBasename() << ";\n";
+            stream << indent_string << "typedef sequence<octet> " << normalizeIDLName(type->getBasename()) << ";\n";
             return true;
         }
         else
-- 
2.43.0


From 729dcce2d5ac94034f4890f996cb92ff69cbf43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 40/87] fix: aliases in IDL get invalid names, or are left out
 silently

Only some categories were checked for names with spaces, and names of derived
types were not checked. Aliases of opaque types were ignored without
opaque_as_any instead of being refused.
---
 lang/idl/export.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 6918194..665bb79 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -550,8 +550,9 @@ bool IDLExport::save
                     throw UnsupportedType(*type, "the typedef name " + type.getName() + " is reserved by the IDL exporter");
                 return false;
             }
-            else if (type.getBasename().find_first_of("/<>") != std::string::npos)
+            else if (type.getBasename().find_first_of("/<> *[],") != std::string::npos)
             {
+                // Not a name that can be given to an IDL typedef
                 return false;
             }
 
@@ -573,12 +574,7 @@ bool IDLExport::save
                 checkContainer(container_t);
                 stream << "sequence<" << getIDLAbsolute(container_t.getIndirection()) << "> " << base_name << ";";
             }
-            else if (type->getCategory() == Type::Opaque)
-            {
-                if (marshalOpaquesAsAny())
-                    stream << "any " << base_name << ";";
-            }
-            else if (type.getBasename().find_first_of(" ") == string::npos)
+            else
                 stream << getIDLAbsolute(*type) << " " << base_name << ";";
 
             std::string def = stream.str();
-- 
2.43.0


From 96319281a4fefe8c3f2d7ce6442e21c29049fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 41/87] fix: blob_threshold makes containers and numerics
 sequence<octet>

The typedef of a container got an invalid name, and what refers to the
container used a name that was not defined anymore.
---
 lang/idl/export.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 665bb79..cfefae2 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -594,7 +594,10 @@ bool IDLExport::save
         // in a temporary ostringstream and change namespace only if some output
         // has actually been generated
 
-        if (m_blob_threshold && static_cast<int>(type->getSize()) > m_blob_threshold)
+        // Numerics are builtins of IDL, and containers are sequences already
+        Type::Category category = type->getCategory();
+        bool can_be_blob = (category == Type::Compound || category == Type::Enum || category == Type::Opaque);
+        if (can_be_blob && m_blob_threshold && static_cast<int>(type->getSize()) > m_blob_threshold)
         {
             string target_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
             size_t ns_size = namespaceIndentLevel(target_namespace);
-- 
2.43.0


From 4bb12cfd847dfe26d5aae1580138af1e07ff01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 42/87] fix: IDL aliases are mistaken for generated sequence
 typedefs

The generated typedefs were registered under the namespace of their element
and not under the one they are generated in. Aliases were dropped because of
typedefs that live in another module, and others were defined twice.
---
 lang/idl/export.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index cfefae2..fbcfa17 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -389,7 +389,7 @@ namespace
         std::string typedef_name = getIDLBase(type).second;
         boost::replace_all(typedef_name, "::", "_");
         m_stream << m_indent << "typedef sequence<" << element_name << "> " << typedef_name << ";\n";
-        m_exported_typedefs.insert(make_pair(type.getIndirection().getNamespace() + typedef_name, &type));
+        m_exported_typedefs.insert(make_pair(target_namespace + typedef_name, &type));
 
         return true;
     }
@@ -543,7 +543,7 @@ bool IDLExport::save
             std::string type_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
 
             map<string, Type const*>::const_iterator already_exported =
-                m_exported_typedefs.find(type.getName());
+                m_exported_typedefs.find(type_namespace + type.getBasename());
             if (already_exported != m_exported_typedefs.end())
             {
                 if (*already_exported->second != *type)
-- 
2.43.0


From 5c2b2b04f89ad35dd00cfd5321f73cfab0f70444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 43/87] fix: an IDL exporter cannot be used twice

It kept the namespace, the typedefs and the types of the previous export.
---
 lang/idl/export.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index fbcfa17..20dea54 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -491,6 +491,13 @@ void IDLExport::save
     m_opaque_as_any  = config.get<bool>("opaque_as_any", false);
     list<string> selection = config.get< list<string> >("selected");
     m_selected_types = set<string>(selection.begin(), selection.end());
+
+    // Forget about a previous export
+    m_namespace = Typelib::NamespaceMarkString;
+    m_indent.clear();
+    m_typedefs.clear();
+    m_exported_typedefs.clear();
+
     return Exporter::save(stream, config, type);
 }
 
-- 
2.43.0


From 7c70b05ffbc447ef94f0e802b35245e6136ece23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 44/87] fix: name listings of a registry show aliases under
 their own name

Registry::dump listed the name of the aliased type once more instead of
the alias.
---
 typelib/registry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 5e1d751..a34f021 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -535,7 +535,7 @@ namespace Typelib
                     stream << it->first << " is an alias for " << regtype.type->getName() << "\n";
             }
             else
-                stream << "\t" << regtype.type->getName() << endl;
+                stream << "\t" << it->first << endl;
         }
     }
 
-- 
2.43.0


From a938d8b3c406ad5f758db6cbe4278d0509847007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 45/87] fix: adding the standard types to a registry that has a
 bool but no int8_t

CXX::addStandardTypes dereferenced a null pointer, as it takes the presence
of /bool as the sign that /int8_t is there as well.
---
 lang/csupport/standard_types.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/csupport/standard_types.cc b/lang/csupport/standard_types.cc
index 62c4dc6..11fb385 100644
--- a/lang/csupport/standard_types.cc
+++ b/lang/csupport/standard_types.cc
@@ -125,6 +125,8 @@ void Typelib::CXX::addStandardTypes(Typelib::Registry& registry)
 {
     if (!registry.has("/bool"))
         ::addStandardTypes(registry);
+    if (!registry.has("/int8_t"))
+        registry.add(new Numeric("/int8_t", 1, Numeric::SInt));
     if (!registry.has("/std/string"))
         registry.add(new String(*registry.get("/int8_t")));
 }
-- 
2.43.0


From 609b9a2926b81f0aa7e05680e0ec05e6fec3d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 46/87] fix: Ruby's Registry#alias raises when the name is
 already used

The AlreadyDefined exception was not caught and terminated the interpreter
---
 bindings/ruby/ext/registry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 5c3b167..6063eab 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -193,6 +193,8 @@ VALUE registry_alias(VALUE self, VALUE name, VALUE aliased)
         rb_raise(rb_eArgError, "invalid type name %s", StringValuePtr(name));
     } catch(Undefined const&) {
         rb_raise(eNotFound, "there is no type in this registry with the name '%s'", StringValuePtr(aliased));
+    } catch(std::exception const& e) {
+        rb_raise(rb_eArgError, "%s", e.what());
     }
 }
 
-- 
2.43.0


From 88f11d0407181ba454013fc5f26b13d90d4cd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 47/87] fix: Ruby's Registry#create_compound refuses field
 types of another registry

The new compound would refer to types its registry does not own, and that
disappear along with the other registry
---
 bindings/ruby/ext/registry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 6063eab..0098576 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -604,6 +604,8 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
         VALUE rb_name = rb_ary_entry(field, 0);
         std::string field_name(StringValuePtr(rb_name));
         Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
+        if (!reg.isIncluded(field_type))
+            rb_raise(rb_eArgError, "the type of field %s comes from a different type registry", field_name.c_str());
         int offset(NUM2INT(rb_ary_entry(field, 2)));
         new_t->addField(field_name, field_type, offset);
     }
-- 
2.43.0


From 689439adf6436feade744202f2bb17be005e9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 48/87] fix: Ruby's Registry#create_enum raises when a symbol
 is given two values

The exception was not caught and terminated the interpreter
---
 bindings/ruby/ext/registry.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 0098576..0918484 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -639,7 +639,8 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
         VALUE rb_name = rb_ary_entry(sym, 0);
         std::string sym_name(StringValuePtr(rb_name));
         int sym_value(NUM2INT(rb_ary_entry(sym, 1)));
-        new_t->add(sym_name, sym_value);
+        try { new_t->add(sym_name, sym_value); }
+        catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
     }
 
     Typelib::Enum* type = new_t.release();
-- 
2.43.0


From 6916a26fac1fb2f35ba7f02010115237b6190ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 49/87] fix: Ruby's Registry#create_container raises when the
 container cannot be registered

The exception was not caught and terminated the interpreter
---
 bindings/ruby/ext/registry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 0918484..bd485b2 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -566,6 +566,8 @@ static VALUE registry_define_container(VALUE registry, VALUE kind, VALUE element
         return cxx2rb::type_wrap(new_type, registry);
     } catch(Typelib::UnknownContainer const&) {
         rb_raise(eNotFound, "%s is not a known container type", StringValuePtr(kind));
+    } catch(std::exception const& e) {
+        rb_raise(rb_eArgError, "%s", e.what());
     }
 }
 
-- 
2.43.0


From e6a2e70b796b07230b4ba200efe3fefbb99db3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 50/87] fix: comparing a Ruby type with the NullType class

NullType was left out when the root classes get their guard type, so that
type == Typelib::NullType raised TypeError
---
 bindings/ruby/lib/typelib.rb | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 780349c..7a4110d 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -208,6 +208,7 @@ require 'typelib_ruby'
 Typelib::Type.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::IndirectType.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::OpaqueType.instance_variable_set :@metadata, Typelib::MetaData.new
+Typelib::NullType.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::PointerType.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::NumericType.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::ArrayType.instance_variable_set :@metadata, Typelib::MetaData.new
@@ -398,6 +399,9 @@ module Typelib
     class OpaqueType
         initialize_base_class
     end
+    class NullType
+        initialize_base_class
+    end
     class PointerType
         initialize_base_class
     end
-- 
2.43.0


From b784c934d55c535473f8e582ea2e5163b64adad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 51/87] fix: Typelib::CXXRegistry.new

The class was defined before the extension set the allocator of Registry, so
that creating one raised TypeError
---
 bindings/ruby/lib/typelib.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 7a4110d..369ff61 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -201,9 +201,9 @@ require 'typelib/metadata'
 
 require 'typelib/registry'
 require 'typelib/registry_export'
-require 'typelib/cxx_registry'
 require 'typelib/specializations'
 require 'typelib_ruby'
+require 'typelib/cxx_registry'
 
 Typelib::Type.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::IndirectType.instance_variable_set :@metadata, Typelib::MetaData.new
-- 
2.43.0


From b57eaaf5f70fcfe1ff295e1a619f94502e214453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 52/87] fix: comparing the root type classes of the Ruby
 bindings

They all had the same guard type, so that any two of them were equal
---
 bindings/ruby/lib/typelib/type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 48fe5ac..67e3ae6 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -648,7 +648,7 @@ module Typelib
             end
 
             def initialize_base_class
-                @__guard_type = Typelib::Registry.new(false).create_null('/Typelib/Type')
+                @__guard_type = Typelib::Registry.new(false).create_null("/#{name.gsub('::', '/')}")
                 @type = @__guard_type.
                     instance_variable_get(:@type)
             end
-- 
2.43.0


From 93955bb9e5e0cd297d65a64d2f0c4503acf87b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 53/87] fix: resizing a type changes arrays of unrelated types

Type::resize reported types that had already been processed as resized, even
if their size did not change. An array whose size is not the product of its
element size and dimension was resized by the resize of any other type if its
element happened to come first.
---
 typelib/typemodel.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 060b215..a2334d4 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -144,12 +144,14 @@ namespace Typelib
         size_t old_size = getSize();
         // Register the type before resizing it, as types can be recursive. It
         // also ensures that a type is processed only once
-        if (!new_sizes.insert(make_pair(getName(), make_pair(old_size, old_size))).second)
-            return true;
-
-        bool result = do_resize(registry, new_sizes);
-        new_sizes[getName()] = make_pair(old_size, getSize());
-        return result;
+        std::pair<std::map<std::string, std::pair<size_t, size_t> >::iterator, bool> entry =
+            new_sizes.insert(make_pair(getName(), make_pair(old_size, old_size)));
+        if (entry.second)
+        {
+            do_resize(registry, new_sizes);
+            entry.first->second.second = getSize();
+        }
+        return entry.first->second.first != entry.first->second.second;
     }
 
     bool Type::do_resize(Registry& into, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
-- 
2.43.0


From 7e3018859860bb169cc9200095eac63adfe03dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:42 +0000
Subject: [PATCH 54/87] fix: large unsigned numbers in the Ruby bindings

32 bit unsigned values above the maximum of int were read as negative
numbers, 64 bit ones above the maximum of long long could not be set.
---
 bindings/ruby/ext/convert.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 44645de..2386fa0 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -18,7 +18,7 @@ bool RubyGetter::visit_ (uint8_t & value) { m_value = INT2FIX(value); return fal
 bool RubyGetter::visit_ (int16_t & value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (uint16_t& value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (int32_t & value) { m_value = INT2NUM(value); return false; }
-bool RubyGetter::visit_ (uint32_t& value) { m_value = INT2NUM(value); return false; }
+bool RubyGetter::visit_ (uint32_t& value) { m_value = UINT2NUM(value); return false; }
 bool RubyGetter::visit_ (int64_t & value) { m_value = LL2NUM(value);  return false; }
 bool RubyGetter::visit_ (uint64_t& value) { m_value = ULL2NUM(value); return false; }
 bool RubyGetter::visit_ (float   & value) { m_value = rb_float_new(value); return false; }
@@ -90,7 +90,7 @@ bool RubySetter::visit_ (uint16_t& value) { value = NUM2UINT(m_value); return fa
 bool RubySetter::visit_ (int32_t & value) { value = NUM2INT(m_value); return false; }
 bool RubySetter::visit_ (uint32_t& value) { value = NUM2UINT(m_value); return false; }
 bool RubySetter::visit_ (int64_t & value) { value = NUM2LL(m_value);  return false; }
-bool RubySetter::visit_ (uint64_t& value) { value = NUM2LL(m_value); return false; }
+bool RubySetter::visit_ (uint64_t& value) { value = NUM2ULL(m_value); return false; }
 bool RubySetter::visit_ (float   & value) { value = NUM2DBL(m_value); return false; }
 bool RubySetter::visit_ (double  & value) { value = NUM2DBL(m_value); return false; }
 
-- 
2.43.0


From d33fef9d37c786c298c75db5fb8dc0f041d97433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 55/87] fix: C++ exceptions end the interpreter in value
 methods of the Ruby bindings

---
 bindings/ruby/ext/convert.cc           |  6 +++-
 bindings/ruby/ext/specialized_types.cc | 49 ++++++++++++++++++--------
 bindings/ruby/ext/value.cc             | 39 ++++++++++++++------
 3 files changed, 67 insertions(+), 27 deletions(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 2386fa0..aa6b3f4 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -173,7 +173,11 @@ VALUE typelib_from_ruby(Value dst, VALUE new_value)
         Type const& dst_t = dst.getType();
         Type const& src_t = src.getType();
         if (dst_t == src_t)
-            Typelib::copy(dst, src);
+        {
+            try { Typelib::copy(dst, src); }
+            catch(std::exception const& e)
+            { rb_raise(rb_eArgError, "%s", e.what()); }
+        }
         else
         {
             rb_raise(rb_eArgError, "wrong type in assignment: %s = %s", dst_t.getName().c_str(), src_t.getName().c_str());
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 0dec20d..6c09c12 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -458,7 +458,9 @@ static VALUE container_clear(VALUE self)
     Value value = rb2cxx::object<Value>(self);
     Container const& type(dynamic_cast<Container const&>(value.getType()));
 
-    type.clear(value.getData());
+    try { type.clear(value.getData()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return Qnil;
 }
 
@@ -488,7 +490,9 @@ static VALUE container_do_push(VALUE self, VALUE obj)
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.push(container_v.getData(), element_v);
+    try { container_t.push(container_v.getData(), element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -499,7 +503,10 @@ static VALUE container_do_set(VALUE self, VALUE index, VALUE obj)
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.setElement(container_v.getData(), NUM2INT(index), element_v);
+    int i = NUM2INT(index);
+    try { container_t.setElement(container_v.getData(), i, element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -509,10 +516,16 @@ static VALUE container_do_get(VALUE self, VALUE index, VALUE raw)
     Container const& container_t(dynamic_cast<Container const&>(container_v.getType()));
     VALUE registry = value_get_registry(self);
 
-    Value v = container_t.getElement(container_v.getData(), NUM2INT(index));
-    if (RTEST(raw))
-        return cxx2rb::value_wrap(v, registry, self);
-    else return typelib_to_ruby(v, registry, self);
+    int i = NUM2INT(index);
+    try
+    {
+        Value v = container_t.getElement(container_v.getData(), i);
+        if (RTEST(raw))
+            return cxx2rb::value_wrap(v, registry, self);
+        else return typelib_to_ruby(v, registry, self);
+    }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 }
 
 struct ContainerIterator : public ValueVisitor
@@ -547,7 +560,9 @@ static VALUE container_each(VALUE self, VALUE raw)
     Value value = rb2cxx::object<Value>(self);
     VALUE registry = value_get_registry(self);
     ContainerIterator iterator(registry, self, RTEST(raw));
-    dynamic_cast<Typelib::Container const&>(value.getType()).visit(value.getData(), iterator);
+    try { dynamic_cast<Typelib::Container const&>(value.getType()).visit(value.getData(), iterator); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -566,10 +581,11 @@ static VALUE container_erase(VALUE self, VALUE obj)
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
 
-    if (container_t.erase(container_v.getData(), element_v))
-        return Qtrue;
-    else
-        return Qfalse;
+    bool erased = false;
+    try { erased = container_t.erase(container_v.getData(), element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
+    return erased ? Qtrue : Qfalse;
 }
 
 bool container_delete_if_i(Value v, VALUE registry, VALUE container)
@@ -590,7 +606,9 @@ static VALUE container_delete_if(VALUE self)
     Container const& container_t(dynamic_cast<Container const&>(container_v.getType()));
 
     VALUE registry = value_get_registry(self);
-    container_t.delete_if(container_v.getData(), boost::bind(container_delete_if_i, _1, registry, self));
+    try { container_t.delete_if(container_v.getData(), boost::bind(container_delete_if_i, _1, registry, self)); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -658,8 +676,9 @@ static VALUE numeric_to_ruby(VALUE mod, VALUE self)
     VALUE registry = value_get_registry(self);
     try {
         return typelib_to_ruby(value, registry, Qnil);
-    } catch(Typelib::NullTypeFound const&) { }
-    rb_raise(rb_eTypeError, "trying to convert 'void'");
+    } catch(Typelib::UnsupportedType const&) { }
+      catch(Typelib::NullTypeFound const&) { }
+    rb_raise(rb_eTypeError, "cannot convert values of type %s", value.getType().getName().c_str());
 }
 
 /*
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ec6f331..19e620c 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -465,12 +465,14 @@ VALUE value_do_from_buffer(VALUE rbself, VALUE string, VALUE pointers, VALUE opa
 {
     Value value  = rb2cxx::object<Value>(rbself);
 
-    MemoryLayout layout = Typelib::layout_of(value.getType(),
-            RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
-
     char* ruby_buffer = StringValuePtr(string);
     vector<uint8_t> cxx_buffer(ruby_buffer, ruby_buffer + RSTRING_LEN(string));
-    try { Typelib::load(value, cxx_buffer, layout); }
+    try
+    {
+        MemoryLayout layout = Typelib::layout_of(value.getType(),
+                RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+        Typelib::load(value, cxx_buffer, layout);
+    }
     catch(std::exception const& e)
     { rb_raise(rb_eArgError, "%s", e.what()); }
     return rbself;
@@ -517,7 +519,9 @@ VALUE value_endian_swap(VALUE self)
 {
     Value& value = rb2cxx::object<Value>(self);
     CompileEndianSwapVisitor compiled;
-    compiled.apply(value.getType());
+    try { compiled.apply(value.getType()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 
     VALUE registry = value_get_registry(self);
     VALUE result   = value_allocate(value.getType(), registry);
@@ -536,7 +540,9 @@ static
 VALUE value_endian_swap_b(VALUE self, VALUE rb_compile)
 {
     Value& value = rb2cxx::object<Value>(self);
-    endian_swap(value);
+    try { endian_swap(value); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -577,10 +583,15 @@ static
 VALUE value_do_byte_array(VALUE self, VALUE pointers, VALUE opaques, VALUE merge, VALUE remove_trailing_skips)
 {
     Value& value = rb2cxx::object<Value>(self);
-    MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
 
     vector<uint8_t> buffer;
-    Typelib::dump(value, buffer, layout);
+    try
+    {
+        MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+        Typelib::dump(value, buffer, layout);
+    }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return rb_str_new(reinterpret_cast<char*>(&buffer[0]), buffer.size());
 }
 
@@ -635,7 +646,9 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
     if (!NIL_P(separator)) sep = StringValuePtr(separator);
 
     std::ostringstream stream;
-    stream << csv(value.getType(), value.getData(), sep);
+    try { stream << csv(value.getType(), value.getData(), sep); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     std::string str = stream.str();
     return rb_str_new(str.c_str(), str.length());
 }
@@ -644,7 +657,9 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
 static VALUE value_zero(VALUE self)
 {
     Value const& value(rb2cxx::object<Value>(self));
-    Typelib::zero(value);
+    try { Typelib::zero(value); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -659,7 +674,9 @@ static VALUE typelib_do_copy(VALUE, VALUE to, VALUE from)
         if (!v_from.getType().canCastTo(v_to.getType()))
             rb_raise(rb_eArgError, "cannot copy: types are not compatible");
     }
-    Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType());
+    try { Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return to;
 }
 
-- 
2.43.0


From 8ef8c3fc9b35ebb488e42c5917b8a725cff016d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 56/87] fix: assigning a Ruby string to a char pointer writes
 through it

---
 bindings/ruby/ext/strings.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index f9b2c79..30c44de 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -64,6 +64,8 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     char * buffer;
     string::size_type buffer_size;
     string_buffer_get(value, buffer, buffer_size);
+    if (buffer_size == string::npos)
+        rb_raise(rb_eArgError, "cannot write a string through a pointer: the size of the buffer is unknown");
 
     string::size_type from_length = RSTRING_LEN(StringValue(from));
     if ((buffer_size - 1) < from_length)
-- 
2.43.0


From 5ac0f83870563a1be711877f1cdad136fb7f1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 57/87] fix: multi-byte characters truncate the strings given
 to /std/string

---
 bindings/ruby/lib/typelib/standard_convertions.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/standard_convertions.rb b/bindings/ruby/lib/typelib/standard_convertions.rb
index fb3e3fb..4b26d59 100644
--- a/bindings/ruby/lib/typelib/standard_convertions.rb
+++ b/bindings/ruby/lib/typelib/standard_convertions.rb
@@ -26,7 +26,7 @@ module Typelib
     end
 
     convert_from_ruby String, '/std/string' do |value, typelib_type|
-        typelib_type.wrap([value.length, value].pack("QA#{value.length}"))
+        typelib_type.wrap([value.bytesize, value].pack("Qa#{value.bytesize}"))
     end
     convert_to_ruby '/std/string', String do |value|
         value = value.to_byte_array[8..-1]
-- 
2.43.0


From 0df3dd24d557e8794264ab0c550c04eabd9dbecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 58/87] fix: NoMethodError when too many values are given for a
 compound in Ruby

---
 bindings/ruby/lib/typelib/compound_type.rb | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 647eca9..29c8050 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -125,6 +125,9 @@ module Typelib
         # elements are supposed to be given in the field order
         def set_array(array) # :nodoc:
             fields = self.class.fields
+            if array.size > fields.size
+                raise ArgumentError, "expected at most #{fields.size} values to initialize a #{self.class.name}, got #{array.size}"
+            end
             array.each_with_index do |value, i|
                 set_field(fields[i][0], value)
             end
-- 
2.43.0


From 53a2af89d707a0c2e6c16375f7f9f68c24a03062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 59/87] fix: File.exists? was removed from Ruby

---
 bindings/ruby/lib/typelib.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 369ff61..65a3cfc 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -162,7 +162,7 @@ module Typelib
 
         ENV['TYPELIB_RUBY_PLUGIN_PATH'].split(':').each do |dir|
             specific_file = File.join(dir, "typelib_plugin.rb")
-            if File.exists?(specific_file)
+            if File.exist?(specific_file)
                 if require(specific_file)
                     STDERR.puts "WARN: integrating typelib plugin using the TYPELIB_RUBY_PLUGIN_PATH environment variable is deprecated"
                     STDERR.puts "WARN: just put a file called typelib_plugin.rb into a subfolder from the RUBYLIB (e.g. base/typelib_plugin.rb)"
-- 
2.43.0


From d6ab2b0a4d592716fde459d9de68800aa2f210d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 60/87] fix: NameError when a Ruby conversion is ambiguous

---
 bindings/ruby/lib/typelib/specializations.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/specializations.rb b/bindings/ruby/lib/typelib/specializations.rb
index 5e9854b..6f55c9c 100644
--- a/bindings/ruby/lib/typelib/specializations.rb
+++ b/bindings/ruby/lib/typelib/specializations.rb
@@ -102,7 +102,7 @@ module Typelib
         def find(type_model, error_if_ambiguous = true)
             all = find_all(type_model)
             if all.size > 1 && error_if_ambiguous
-                raise ArgumentError, "more than one entry matches #{name}"
+                raise ArgumentError, "more than one entry matches #{type_model.name}"
             else all.first
             end
         end
-- 
2.43.0


From 5168416d8ca3f7a90f2f3da754916e67bdfddd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 61/87] fix: out of bounds array accesses in Ruby depend on
 what was accessed before

---
 bindings/ruby/ext/specialized_types.cc  | 3 ---
 bindings/ruby/lib/typelib/array_type.rb | 3 +++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 6c09c12..bcec96f 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -237,9 +237,6 @@ static VALUE array_get(int argc, VALUE* argv, VALUE self)
 {
     Value& value            = rb2cxx::object<Value>(self);
     Array const& array      = static_cast<Array const&>(value.getType());
-    if (array.getDimension() == 0)
-        return self;
-
     Type  const& array_type = array.getIndirection();
     VALUE registry          = value_get_registry(self);
 
diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index aee8b12..c1b98c2 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -152,6 +152,9 @@ module Typelib
         end
 
         def raw_get(index)
+            if index < 0 || index >= size
+                raise IndexError, "index out of bounds (#{index} is not in [0, #{size}))"
+            end
             @elements[index] ||= do_get(index)
         end
 
-- 
2.43.0


From 415bafa757d280bc869b4e521a434ec17991d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 62/87] fix: fields accessed by symbol are not tracked, or
 refused, by Ruby compounds

---
 bindings/ruby/lib/typelib/compound_type.rb | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 29c8050..d72a6f4 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -448,10 +448,11 @@ module Typelib
 
 
         def get(name)
+            name = name.to_s
             if @fields[name]
                 Typelib.to_ruby(@fields[name], @field_types[name])
             else
-                value = typelib_get_field(name.to_s, false)
+                value = typelib_get_field(name, false)
                 if value.kind_of?(Typelib::Type)
                     @fields[name] = value
                     Typelib.to_ruby(value, @field_types[name])
@@ -461,11 +462,12 @@ module Typelib
         end
 
         def raw_get(name)
+            name = name.to_s
             @fields[name] ||= typelib_get_field(name, true)
         end
 
         def raw_get_cached(name)
-            @fields[name]
+            @fields[name.to_s]
         end
 
         def raw_set_field(name, value)
@@ -480,7 +482,7 @@ module Typelib
                     return Typelib.copy(attribute, value)
                 end
             end
-            typelib_set_field(name, value)
+            typelib_set_field(name.to_s, value)
 
         rescue ArgumentError => e
             if e.message =~ /^no field \w+ in /
-- 
2.43.0


From b8f8e0655aec14cacde3084cbceccf6c885583fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 63/87] fix: whether Ruby sees converted fields and elements
 depends on what was accessed before

---
 bindings/ruby/lib/typelib/compound_type.rb  | 2 ++
 bindings/ruby/lib/typelib/container_type.rb | 9 +++++++--
 bindings/ruby/lib/typelib/numeric_type.rb   | 6 +++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index d72a6f4..c8813b0 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -451,6 +451,8 @@ module Typelib
             name = name.to_s
             if @fields[name]
                 Typelib.to_ruby(@fields[name], @field_types[name])
+            elsif (type = @field_types[name]) && type.needs_convertion_to_ruby?
+                Typelib.to_ruby(raw_get(name), type)
             else
                 value = typelib_get_field(name, false)
                 if value.kind_of?(Typelib::Type)
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 4a57431..669f01f 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -89,6 +89,8 @@ module Typelib
             def get_no_boundary_check(index)
                 if @elements[index]
                     return __element_to_ruby(@elements[index])
+                elsif element_t.needs_convertion_to_ruby?
+                    __element_to_ruby(raw_get_no_boundary_check(index))
                 else
                     value = do_get(index, false)
                     if value.kind_of?(Typelib::Type)
@@ -292,7 +294,10 @@ module Typelib
         end
 
         def __element_to_ruby(value)
-            value
+            if value.kind_of?(Typelib::Type)
+                Typelib.to_ruby(value, element_t)
+            else value
+            end
         end
 
         def __element_from_ruby(value)
@@ -330,7 +335,7 @@ module Typelib
             return enum_for(:each) if !block_given?
 
             idx = 0
-            do_each(false) do |el|
+            do_each(element_t.needs_convertion_to_ruby?) do |el|
                 if el.kind_of?(Typelib::Type)
                     el = (@elements[idx] ||= el)
                     el = __element_to_ruby(el)
diff --git a/bindings/ruby/lib/typelib/numeric_type.rb b/bindings/ruby/lib/typelib/numeric_type.rb
index 3b365df..a10b1da 100644
--- a/bindings/ruby/lib/typelib/numeric_type.rb
+++ b/bindings/ruby/lib/typelib/numeric_type.rb
@@ -4,7 +4,11 @@ module Typelib
         def self.subclass_initialize
             super
 
-            if integer?
+            if convertion_to_ruby
+                # An explicit convertion has been declared for this type. As the
+                # builtin one, it has no state
+                self.contains_converted_types = false
+            elsif integer?
                 # This is only a hint for the rest of Typelib. The actual
                 # convertion is done internally by Typelib
                 convert_to_ruby(Numeric, recursive: false, builtin: true)
-- 
2.43.0


From 99cc96f155a105507bb19425817a91a41026ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 64/87] fix: converted fields of Ruby compounds keep values
 overwritten by other means

---
 bindings/ruby/ext/value.cc                 |  6 +++---
 bindings/ruby/lib/typelib/compound_type.rb | 16 +++++++--------
 bindings/ruby/lib/typelib/type.rb          | 24 ++++++++++++++++++++++
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 19e620c..6cfd958 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -726,10 +726,10 @@ void typelib_ruby::Typelib_init_values()
     rb_define_singleton_method(cType, "from_address", RUBY_METHOD_FUNC(&value_from_address), 1);
 
     rb_define_method(cType, "do_from_buffer", RUBY_METHOD_FUNC(&value_do_from_buffer), 5);
-    rb_define_method(cType, "zero!",      RUBY_METHOD_FUNC(&value_zero), 0);
+    rb_define_method(cType, "do_zero",    RUBY_METHOD_FUNC(&value_zero), 0);
     rb_define_method(cType, "memory_eql?",      RUBY_METHOD_FUNC(&value_memory_eql_p), 1);
-    rb_define_method(cType, "endian_swap",      RUBY_METHOD_FUNC(&value_endian_swap), 0);
-    rb_define_method(cType, "endian_swap!",      RUBY_METHOD_FUNC(&value_endian_swap_b), 0);
+    rb_define_method(cType, "do_endian_swap_copy", RUBY_METHOD_FUNC(&value_endian_swap), 0);
+    rb_define_method(cType, "do_endian_swap",      RUBY_METHOD_FUNC(&value_endian_swap_b), 0);
     rb_define_method(cType, "zone_address", RUBY_METHOD_FUNC(&value_address), 0);
     rb_define_method(cType, "do_cast", RUBY_METHOD_FUNC(&value_do_cast), 1);
     rb_define_method(cType, "do_invalidate", RUBY_METHOD_FUNC(&value_invalidate), 0);
diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index c8813b0..fa8aa97 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -97,20 +97,18 @@ module Typelib
                             @fields[field_name].apply_changes_from_converted_types
                         end
                         set_field(field_name, value)
+                        instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
                     end
                 end
             end
 
-            def dup
-                new_value = super()
-                for field_name in self.class.converted_fields
-                    converted_value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
-                    if !converted_value.kind_of?(Symbol)
-                        converted_value = converted_value.dup
-                    end
-                    instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", converted_value.dup)
+            def raw_set(name, value)
+                result = super(name, value)
+                # The converted value, if there is one, has been overridden
+                if self.class.converted_fields.include?(name.to_s)
+                    instance_variable_set("@#{FIELD_NANE_PREFIX}#{name}", nil)
                 end
-                new_value
+                result
             end
         end
 
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 67e3ae6..929677d 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -672,6 +672,7 @@ module Typelib
         # provided mainly for libraries that are unmarshalling a lot of typelib
         # samples, to remove the overhead of option validation
         def from_buffer_direct(string, accept_pointers = false, accept_opaques = false, merge_skip_copy = true, remove_trailing_skips = true)
+            invalidate_changes_from_converted_types
             allocating_operation do
                 do_from_buffer(string,
                                accept_pointers,
@@ -682,6 +683,29 @@ module Typelib
             self
         end
 
+        # Zeroes this value. Containers become empty
+        def zero!
+            invalidate_changes_from_converted_types
+            handle_invalidation do
+                do_zero
+            end
+            self
+        end
+
+        # Swaps the endianness of this value, in place
+        def endian_swap!
+            apply_changes_from_converted_types
+            do_endian_swap
+            invalidate_changes_from_converted_types
+            self
+        end
+
+        # Returns a copy of this value whose endianness is swapped
+        def endian_swap
+            apply_changes_from_converted_types
+            do_endian_swap_copy
+        end
+
         # Returns a string whose content is a marshalled representation of the memory
         # hold by +obj+
         #
-- 
2.43.0


From dd91603a5e728b1723b185d4218a08dae5352656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 65/87] fix: Ruby element wrappers dangle when a container is
 modified by zero!, []= or raw_memcpy, or is a string

---
 bindings/ruby/ext/specialized_types.cc        | 22 +++++++++++++++++--
 bindings/ruby/lib/typelib/container_type.rb   | 17 +++++++++++++-
 .../ruby/lib/typelib/standard_convertions.rb  |  2 ++
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index bcec96f..c4b3c99 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -626,7 +626,22 @@ static VALUE vector_contained_memory_id(VALUE self)
 
 /*
  * call-seq:
- *  vector.raw_memcpy(source,size) => nil
+ *  string.contained_memory_id => value or nil
+ *
+ * (see ContainerType#contained_memory_id)
+ */
+static VALUE string_contained_memory_id(VALUE self)
+{
+    Value container_v = rb2cxx::object<Value>(self);
+    std::string const* string = reinterpret_cast<std::string*>(container_v.getData());
+    if (string->empty())
+        return Qnil;
+    return ULL2NUM(reinterpret_cast<uint64_t>(string->data()));
+}
+
+/*
+ * call-seq:
+ *  vector.do_raw_memcpy(source,size) => nil
  *
  * @param [Integer] source the source raw address
  * @param [Integer] size the number of bytes to be copied
@@ -777,6 +792,9 @@ void typelib_ruby::Typelib_init_specialized_types()
 
     VALUE mVector = rb_define_module_under(cContainer, "StdVector");
     rb_define_method(mVector, "contained_memory_id", RUBY_METHOD_FUNC(vector_contained_memory_id), 0);
-    rb_define_method(mVector, "raw_memcpy", RUBY_METHOD_FUNC(vector_raw_memcpy), 2);
+    rb_define_method(mVector, "do_raw_memcpy", RUBY_METHOD_FUNC(vector_raw_memcpy), 2);
+
+    VALUE mString = rb_define_module_under(cContainer, "StdString");
+    rb_define_method(mString, "contained_memory_id", RUBY_METHOD_FUNC(string_contained_memory_id), 0);
 }
 
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 669f01f..52df588 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -147,7 +147,9 @@ module Typelib
                     raise ArgumentError, "index out of bounds"
                 end
 
-                do_set(index, value)
+                handle_invalidation do
+                    do_set(index, value)
+                end
             end
 
             def set(index, value)
@@ -174,6 +176,19 @@ module Typelib
             end
         end
 
+        # Module included in the containers that represent a std::vector
+        module StdVector
+            # Replaces the content of the vector by the given memory area
+            #
+            # @param [Integer] source the raw address of the source
+            # @param [Integer] size the number of bytes to be copied
+            def raw_memcpy(source, size)
+                handle_invalidation do
+                    do_raw_memcpy(source, size)
+                end
+            end
+        end
+
         class DeepCopyArray < Array
             def dup
                 result = DeepCopyArray.new
diff --git a/bindings/ruby/lib/typelib/standard_convertions.rb b/bindings/ruby/lib/typelib/standard_convertions.rb
index 4b26d59..4c95f12 100644
--- a/bindings/ruby/lib/typelib/standard_convertions.rb
+++ b/bindings/ruby/lib/typelib/standard_convertions.rb
@@ -36,6 +36,8 @@ module Typelib
         value
     end
     specialize '/std/string' do
+        include Typelib::ContainerType::StdString
+
         def to_str
             Typelib.to_ruby(self)
         end
-- 
2.43.0


From cb0eb0f809471c698d22d88ce0b6248d99b1ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 66/87] fix: of_size in Ruby fails for elements with trailing
 padding

---
 bindings/ruby/lib/typelib/container_type.rb | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 52df588..9260378 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -265,7 +265,10 @@ module Typelib
 
         # Create a new container with the given size and element
         def self.of_size(size, element = deference.new)
-            element = Typelib.from_ruby(element, deference).to_byte_array
+            # NOTE: elements are not marshalled the way they would be as
+            # toplevel values, in particular their trailing padding is kept
+            element = new.push(Typelib.from_ruby(element, deference)).
+                to_byte_array[8..-1]
             from_buffer([size].pack("Q") + element * size)
         end
 
-- 
2.43.0


From 19b58cbec44bf73a2f1e8c9b368d4c637cdab6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 67/87] fix: invalidated Ruby values given to C++ operations
 crash the interpreter

---
 bindings/ruby/ext/typelib.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index c893879..47d1b66 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -109,6 +109,14 @@ namespace typelib_ruby {
             return get_wrapped<T>(self);
         }
 
+        template<> inline Value& object(VALUE self)
+        {
+            check_is_kind_of(self, cType);
+            if (RTEST(rb_iv_get(self, "@__typelib_invalidated")))
+                rb_raise(rb_eTypeError, "invalidated object");
+            return get_wrapped<Value>(self);
+        }
+
         template<> inline Registry& object(VALUE self)
         {
             return *object<cxx2rb::RbRegistry>(self).registry;
-- 
2.43.0


From ce67f9d6ccaee6b51d0689a4ab81747c18af03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 68/87] fix: strings written before char arrays without
 elements in Ruby

---
 bindings/ruby/ext/strings.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index 30c44de..b53bdb6 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -68,7 +68,7 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
         rb_raise(rb_eArgError, "cannot write a string through a pointer: the size of the buffer is unknown");
 
     string::size_type from_length = RSTRING_LEN(StringValue(from));
-    if ((buffer_size - 1) < from_length)
+    if (buffer_size <= from_length)
         rb_raise(rb_eArgError, "array to small: %lu, while %lu was needed", buffer_size, from_length + 1);
 
     strncpy(buffer, StringValueCStr(from), buffer_size);
-- 
2.43.0


From c81c435398f34ba3c6f2f12f1ee77ad3944dabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 69/87] fix: converted arrays of Ruby compounds keep elements
 of the memory they replaced

---
 bindings/ruby/lib/typelib/compound_type.rb | 23 +++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index fa8aa97..25a98a9 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -92,16 +92,33 @@ module Typelib
                 super()
                 self.class.converted_fields.each do |field_name|
                     value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
+                    if @fields[field_name]
+                        @fields[field_name].apply_changes_from_converted_types
+                    end
                     if !value.nil?
-                        if @fields[field_name]
-                            @fields[field_name].apply_changes_from_converted_types
-                        end
                         set_field(field_name, value)
+                        if value.kind_of?(Array)
+                            refresh_converted_array(value, get(field_name))
+                        end
                         instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
                     end
                 end
             end
 
+            # Setting a field might have moved the values its elements refer
+            # to. Make the elements of a converted array refer to the current
+            # ones
+            def refresh_converted_array(array, current)
+                return if array.frozen? || !current.kind_of?(Array)
+                array.each_with_index do |value, i|
+                    if value.kind_of?(Array)
+                        refresh_converted_array(value, current[i])
+                    elsif value.kind_of?(Type) && current[i].kind_of?(Type)
+                        array[i] = current[i]
+                    end
+                end
+            end
+
             def raw_set(name, value)
                 result = super(name, value)
                 # The converted value, if there is one, has been overridden
-- 
2.43.0


From b656389a13908101f554927b9b694be434067e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:05 +0000
Subject: [PATCH 70/87] fix: changes made through the elements of Ruby
 containers and arrays are lost

---
 bindings/ruby/lib/typelib/array_type.rb     | 17 +++++++++++++++++
 bindings/ruby/lib/typelib/container_type.rb | 20 ++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index c1b98c2..860afb5 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -65,6 +65,23 @@ module Typelib
             @elements.clear
         end
 
+        # Apply the changes made to the converted values of the elements
+        def apply_changes_from_converted_types
+            super
+            return if !self.class.contains_converted_types?
+            @elements.compact.each do |obj|
+                obj.apply_changes_from_converted_types
+            end
+        end
+
+        def invalidate_changes_from_converted_types
+            super
+            return if !self.class.contains_converted_types?
+            @elements.compact.each do |obj|
+                obj.invalidate_changes_from_converted_types
+            end
+        end
+
         def pretty_print(pp) # :nodoc:
             apply_changes_from_converted_types
             all_fields = enum_for(:each_with_index).to_a
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 9260378..f815c77 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -75,6 +75,23 @@ module Typelib
             @elements.clear
         end
 
+        # Apply the changes made to the converted values of the elements
+        def apply_changes_from_converted_types
+            super
+            return if !self.class.contains_converted_types?
+            for obj in @elements
+                obj.apply_changes_from_converted_types if obj
+            end
+        end
+
+        def invalidate_changes_from_converted_types
+            super
+            return if !self.class.contains_converted_types?
+            for obj in @elements
+                obj.invalidate_changes_from_converted_types if obj
+            end
+        end
+
         # Module included in container types that offer random access
         # functionality
         module RandomAccessContainer
@@ -283,8 +300,11 @@ module Typelib
 
         def handle_container_invalidation
             memory_id    = self.contained_memory_id
+            # The elements might be moved, or replaced
+            apply_changes_from_converted_types
             yield
         ensure
+            invalidate_changes_from_converted_types if !invalidated?
             if invalidated?
                 # All children have been invalidated already by #invalidate
             elsif memory_id && (memory_id != self.contained_memory_id)
-- 
2.43.0


From 926c01cb01584ab77ecac79a44a4d9af1e69ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:22 +0000
Subject: [PATCH 71/87] fix: values of the Ruby bindings get memory zones that
 are being collected

---
 bindings/ruby/ext/memory.cc | 74 ++++++++++++-------------------------
 1 file changed, 23 insertions(+), 51 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 1bed435..6f9506f 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -46,15 +46,10 @@ static struct st_hash_type memory_table_type = {
 struct MemoryTableEntry
 {
     int refcount;
-    VALUE object;
     bool owned;
     void* root_ptr;
-    MemoryTableEntry(VALUE object, bool owned, void* root_ptr = 0)
-        : refcount(1), object(object), owned(owned), root_ptr(root_ptr)
-    {
-        if (root_ptr && owned)
-            rb_raise(rb_eArgError, "given both a root pointer and owned=true for object %llu", NUM2ULL(rb_obj_id(object)));
-    }
+    MemoryTableEntry(bool owned, void* root_ptr = 0)
+        : refcount(1), owned(owned), root_ptr(root_ptr) {}
 };
 
 struct RbMemoryLayout
@@ -181,40 +176,25 @@ typelib_ruby::memory_delete(void *ptr)
     ruby_xfree(ptr);
 }
 
-static VALUE
-memory_aref(void *ptr)
-{
-    MemoryTableEntry* entry;
-    if (!st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry)) {
-        return Qnil;
-    }
-    if ((VALUE)entry == Qundef)
-        rb_bug("found undef in memory table");
-
-    return entry->object;
-}
-
 static void
-memory_aset(void *ptr, VALUE obj, bool owned, void* root_ptr)
+memory_aset(void *ptr, bool owned, void* root_ptr)
 {
-    if (! NIL_P(memory_aref(ptr)))
-        rb_raise(rb_eArgError, "there is already a wrapper for %p", ptr);
-
-    if (ptr == root_ptr)
-        rb_raise(rb_eArgError, "pointer and root pointer are equal");
+    if (root_ptr && owned)
+        rb_raise(rb_eArgError, "given both a root pointer and owned=true for %p", ptr);
 
     if (!memory_ref(ptr))
     {
-        MemoryTableEntry* entry = new MemoryTableEntry(obj, owned, root_ptr);
-        st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
+        if (ptr == root_ptr)
+            rb_raise(rb_eArgError, "pointer and root pointer are equal");
 
-        if (root_ptr)
-        {
-            MemoryTableEntry* root_entry = 0;
-            if (!st_lookup(MemoryTable, (st_data_t)root_ptr, (st_data_t*)&root_entry))
-                rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
+        MemoryTableEntry* root_entry = 0;
+        if (root_ptr && !st_lookup(MemoryTable, (st_data_t)root_ptr, (st_data_t*)&root_entry))
+            rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
+
+        MemoryTableEntry* entry = new MemoryTableEntry(owned, root_ptr);
+        st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
+        if (root_entry)
             ++(root_entry->refcount);
-        }
     }
 }
 
@@ -267,24 +247,16 @@ typelib_ruby::memory_init(VALUE ptr, VALUE type)
 VALUE
 typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
 {
-    VALUE zone = memory_aref(ptr);
-    if (NIL_P(zone))
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
-#       endif
-
-        zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(ptr));
-        memory_aset(ptr, zone, take_ownership, root_ptr);
-    }
-    else
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: already known memory zone\n", ptr);
-#       endif
-    }
+#   ifdef VERBOSE
+    fprintf(stderr, "%p: wrapping memory zone\n", ptr);
+#   endif
 
-    return zone;
+    // Each wrapper gets its own MemoryZone, the memory itself being reference
+    // counted by the memory table. The table cannot hand out the MemoryZone
+    // that is already known for this memory: the GC might already have decided
+    // to free it.
+    memory_aset(ptr, take_ownership, root_ptr);
+    return Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(ptr));
 }
 
 void*
-- 
2.43.0


From 8d251b816c253d411bfeac0dd69694672aa8a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 72/87] fix: namespaces exported to Ruby are kept under the
 name of the exporting module

The cache entry of a namespace was stored under the name of the module it was
resolved from: a type of that name was hidden by the namespace.
---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 2e709fb..bca0e13 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -183,7 +183,7 @@ module Typelib
             elsif basename = RegistryExport.find_namespace(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)
                 ns = Namespace.new
                 ns.initialize_registry_export(self, basename)
-                @__typelib_registry_export_cache[[name, []]] = ns
+                @__typelib_registry_export_cache[[m, args]] = ns
             end
         end
 
-- 
2.43.0


From 50e44755e29ac1539de2e02e7f1d7529cebd40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:04 +0000
Subject: [PATCH 73/87] fix: exporting a registry to a Ruby module overflows
 the stack

Registry#export_to_ruby only worked for modules that have a registry method.
---
 bindings/ruby/lib/typelib/registry.rb        |  1 +
 bindings/ruby/lib/typelib/registry_export.rb | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 9fd8630..b106048 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -109,6 +109,7 @@ module Typelib
         # which it should be done is given in +base_module+
         def export_to_ruby(base_module, options = Hash.new, &block)
             base_module.extend RegistryExport
+            base_module.extend RegistryExport::Root
             base_module.reset_registry_export(self, block, '/')
         end
 
diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index bca0e13..bcf027c 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -34,6 +34,17 @@ module Typelib
 
         class NotFound < RuntimeError; end
 
+        # Extends the modules a registry is exported to, which do not refer to
+        # a registry by themselves
+        module Root
+            attr_reader :registry
+
+            def reset_registry_export(registry = self.registry, *)
+                @registry = registry
+                super
+            end
+        end
+
         attr_reader :__typelib_registry_export_typename_prefix
         attr_reader :__typelib_registry_export_filter_block
 
-- 
2.43.0


From 6903f31bf8e813d28b8c838db31d8662df0d66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 74/87] fix: relaxed type names exported to Ruby are only
 searched in the first namespace

The regular expression that selects the types of a namespace was built once,
with the prefix of the first namespace that was searched.
---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index bcf027c..b03e590 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -130,7 +130,7 @@ module Typelib
             # Try harder ... for weird naming conventions ... but that's costly
             template_args = template_args_to_typelib(args)
             registry.each(typename_prefix) do |type|
-                if type.name =~ /^#{Regexp.quote(typename_prefix)}[^\/]+$/o
+                if type.name =~ /^#{Regexp.quote(typename_prefix)}[^\/]+$/
                     if type.basename.snakecase == "#{m.to_s.snakecase}#{template_args}"
                         return type
                     end
-- 
2.43.0


From 1d5002a51d6f522d825a1dd4fe0a728ede48e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 75/87] fix: converted types nested in converted types cannot
 be reached from Ruby

DelegateClass is not a method of the delegates that stand for Ruby classes.
---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index b03e590..1968468 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -140,7 +140,7 @@ module Typelib
         end
 
         def RegistryExportDelegate(ruby_class)
-            klass = DelegateClass(ruby_class.singleton_class).new(ruby_class)
+            klass = Object.send(:DelegateClass, ruby_class.singleton_class).new(ruby_class)
             m = Module.new do
                 include RegistryExport
 
-- 
2.43.0


From f8fe4d99f54590a2fd93ab430d2a64b97bd1ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 76/87] fix: null pointer values cannot be created from Ruby

PointerType.create_null resets the new value with zero!, which refuses
pointer types as they have no memory layout.
---
 bindings/ruby/lib/typelib/pointer_type.rb | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/pointer_type.rb b/bindings/ruby/lib/typelib/pointer_type.rb
index f25f06f..b333488 100644
--- a/bindings/ruby/lib/typelib/pointer_type.rb
+++ b/bindings/ruby/lib/typelib/pointer_type.rb
@@ -11,9 +11,7 @@ module Typelib
     class PointerType < IndirectType
         # Creates and initializes to zero a value of this pointer type
         def self.create_null
-            result = new
-            result.zero!
-            result
+            create(zero: true)
         end
 
         def self.to_ruby(value)
-- 
2.43.0


From 3396db6d1d24c9f432e1224212daf69d012ca526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:36 +0000
Subject: [PATCH 77/87] fix: keep carriage returns in metadata values across
 TLB documents

---
 lang/tlb/export.cc | 9 ++++++++-
 lang/tlb/import.cc | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index f0ceff3..d1bae8d 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -69,7 +69,8 @@ namespace
         return result;
     }
 
-    /** CDATA sections cannot contain the end-of-section marker */
+    /** CDATA sections cannot contain the end-of-section marker, and XML parsers
+     * turn the carriage returns in them into line feeds */
     std::string cdata(std::string const& source)
     {
         string result = source;
@@ -79,6 +80,12 @@ namespace
             result.replace(pos, 3, "]]]]><![CDATA[>");
             pos = result.find("]]>", pos + 12);
         }
+        pos = result.find('\r');
+        while (pos != string::npos)
+        {
+            result.replace(pos, 1, "]]>&#13;<![CDATA[");
+            pos = result.find('\r', pos);
+        }
         return "<![CDATA[" + result + "]]>";
     }
 
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index b84f6f6..c2e19d4 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -1,6 +1,7 @@
 #include "import.hh"
 #include "xmltools.hh"
 #include <limits.h>
+#include <algorithm>
 
 #include <typelib/typemodel.hh>
 #include <typelib/typebuilder.hh>
@@ -73,7 +74,8 @@ namespace
             metadata.add(key, MetaData::Values());
 
             // Look at the children CDATA blocks. A value is split in more than
-            // one block if it contains the marker that ends CDATA blocks
+            // one block if it contains the marker that ends CDATA blocks, or a
+            // carriage return, which cannot be in one. Other text is ignored
             bool has_value = false;
             std::string value;
             xmlNodePtr cdata = xml->children;
@@ -85,6 +87,11 @@ namespace
                     if (cdata->content)
                         value += reinterpret_cast<char const*>(cdata->content);
                 }
+                else if (cdata->type == XML_TEXT_NODE && cdata->content)
+                {
+                    string text(reinterpret_cast<char const*>(cdata->content));
+                    value.append(count(text.begin(), text.end(), '\r'), '\r');
+                }
             }
             if (has_value)
                 metadata.add(key, value);
-- 
2.43.0


From 11970c73538cd48d31481587178eb29b1c8ba03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 78/87] fix: report failures to write the last part of exported
 files

---
 typelib/exporter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typelib/exporter.cc b/typelib/exporter.cc
index 9b4468b..2534431 100644
--- a/typelib/exporter.cc
+++ b/typelib/exporter.cc
@@ -28,6 +28,8 @@ void Exporter::save(std::string const &file_name,
     // and then call the internal "save()" function giving it the prepared
     // 'ofstream' object
     save(file, config, registry);
+    // the last data is written here, the destructor would not report errors
+    file.close();
 }
 
 void Exporter::save(std::ostream& stream, utilmm::config_set const& config, Registry const& registry)
-- 
2.43.0


From 5acc5f036fcfcee606cbfdc139e24aa839a60944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 79/87] fix: import C++ files in which types refer to
 themselves

A type that is used by its own definition (through a pointer or a container)
aborted the whole import, since its name is known before it is registered. It
cannot be represented: it is ignored, as documented for such types.
---
 bindings/ruby/lib/typelib/gccxml.rb | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index bc721a5..0c2f062 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -411,7 +411,10 @@ module Typelib
             if ignored?(id.to_str)
                 nil
             elsif name = id_to_name[id]
-                name
+                # The name of a type that is being resolved is known before the
+                # type exists. Types that refer to themselves cannot be
+                # represented
+                name if registry.include?(name)
             elsif node = node_from_id(id)
                 resolve_type_definition(node)
             end
@@ -565,7 +568,10 @@ module Typelib
             cxxname = resolve_node_cxx_name(xmlnode)
 
             normalized_name = normalize_type_name(name)
-            id_to_name[id]  = normalized_name
+            # The template arguments might themselves use this type
+            return resolve_type_id(id) if id_to_name.has_key?(id) || ignored?(id)
+
+            id_to_name[id] = normalized_name
 
             access_specifier = xmlnode['access']
             if access_specifier && (access_specifier != 'public')
@@ -587,7 +593,7 @@ module Typelib
                         end
                         if ignored?(contained_node["id"])
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
-                        elsif !resolve_type_definition(contained_node)
+                        elsif !resolve_type_id(contained_node["id"])
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
                         end
                     end
-- 
2.43.0


From 41727a21ffaf7142d80ba0f8c766c10f60a1280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 80/87] fix: look for the definition of C++ types by their full
 name

The first definition with the same base name, or the first namespace with the
same name at any level, was used instead of the one that is meant.
---
 bindings/ruby/lib/typelib/gccxml.rb | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 0c2f062..ede01bf 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -746,16 +746,13 @@ module Typelib
         end
 
         def find_node_by_name(typename, node_type: nil)
-            if node = info.name_to_nodes[typename].first
-                return node if !node_type || (node.name == node_type)
-            else
-                basename, context = resolve_namespace_of(typename)
-                return if !context
-                info.name_to_nodes[basename].
-                    find do |node|
-                        (node['context'].to_s == context) &&
-                            (!node_type || (node.name == node_type))
-                    end
+            _, basename = GCCXMLLoader.split_last_namespace(typename)
+            info.name_to_nodes["/#{basename}"].find do |node|
+                next if node_type && (node.name != node_type)
+
+                # Fundamental types have no context, not even the root namespace
+                full_name = resolve_node_typelib_name(node)
+                full_name == typename || "/#{full_name}" == typename
             end
         end
 
-- 
2.43.0


From 250af25b61111ffe4650ae3ed1d7434044bc7995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 81/87] fix: ignore C++ types that cannot be represented
 instead of aborting the import

Vectors of types that have no definition of their own (e.g. pointers) and
flexible array members made the whole import fail.
---
 bindings/ruby/lib/typelib/gccxml.rb | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index ede01bf..c598707 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -528,7 +528,9 @@ module Typelib
             elsif kind == "ArrayType"
                 if pointed_to_type = resolve_type_id(xmlnode['type'])
                     value = xmlnode["max"]
-                    if value =~ /^(\d+)u?$/
+                    if !value
+                        return ignore(xmlnode, "ignoring an array of #{pointed_to_type} without a size")
+                    elsif value =~ /^(\d+)u?$/
                         size = Integer($1) + 1
                     else
                         raise "expected NUMBER (for castxml) or NUMBERu (for gccxml) for the 'max' attribute of an array definition, but got \'#{value}\'"
@@ -588,10 +590,8 @@ module Typelib
                     if !registry.include?(contained_type)
                         contained_node = find_node_by_name(contained_type)
                         if !contained_node
-                            contained_node = find_node_by_name(contained_type)
-                            raise "Internal error: cannot find definition for #{contained_type}, element of #{name}"
-                        end
-                        if ignored?(contained_node["id"])
+                            return ignore(xmlnode, "ignoring #{name} as there is no definition for its element type #{contained_type}")
+                        elsif ignored?(contained_node["id"])
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
                         elsif !resolve_type_id(contained_node["id"])
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
-- 
2.43.0


From ef01f6eab1255a0ccbc50efc2a704e4e9368e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 82/87] fix: do not use the end of a C++ file as documentation
 of its first definition

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index c598707..12b67ee 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -798,7 +798,7 @@ module Typelib
             # Lines are given 1-based (as all editors work that way), and we
             # want the line before the definition. Remove two
             line = line - 2
-            while true
+            while line >= 0
                 case l = lines[line]
                 when /^\s*$/
                 when /^\s*(\*|\/\/|\/\*)/
-- 
2.43.0


From 20f64a476945fdf03ea901b1da96ea1d914f20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 83/87] fix: C++ names of imported arrays and pointers

They held the printed form of a list of names, e.g. ["::A"]*
---
 bindings/ruby/lib/typelib/gccxml.rb | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 12b67ee..c3017e0 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -521,7 +521,9 @@ module Typelib
                 if pointed_to_type = resolve_type_id(xmlnode['type'])
                     pointed_to_name = (id_to_name[id] = "#{pointed_to_type}*")
                     pointer_type = registry.build(pointed_to_name)
-                    pointer_type.metadata.set('cxxname', "#{pointer_type.deference.metadata.get('cxxname')}*")
+                    if cxxname = pointer_type.deference.metadata.get('cxxname').first
+                        pointer_type.metadata.set('cxxname', "#{cxxname}*")
+                    end
                     return pointed_to_name
                 else return ignore(xmlnode)
                 end
@@ -537,7 +539,9 @@ module Typelib
                     end
                     array_typename = (id_to_name[id] = "#{pointed_to_type}[#{size}]")
                     array_type = registry.create_array(pointed_to_type, size)
-                    array_type.metadata.set('cxxname', "#{array_type.deference.metadata.get('cxxname')}[#{size}]")
+                    if cxxname = array_type.deference.metadata.get('cxxname').first
+                        array_type.metadata.set('cxxname', "#{cxxname}[#{size}]")
+                    end
                     return array_typename
                 else return ignore(xmlnode)
                 end
-- 
2.43.0


From 67a232052f0405f33037e2f365787a12537daea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:32 +0000
Subject: [PATCH 84/87] fix: import C++ files whose path contains =, & or :

---
 bindings/ruby/lib/typelib/gccxml.rb | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index c3017e0..434d025 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -123,10 +123,10 @@ module Typelib
                             tag_start(name, Hash['id' => $1, 'virtual' => '1'])
                         end
                     else
-                        raw_attributes = l.gsub(/&lt;/, "<").gsub(/&gt;/, ">").scan(/\w+="[^"]+"/)
+                        raw_attributes = l.gsub(/&lt;/, "<").gsub(/&gt;/, ">").gsub(/&apos;/, "'").gsub(/&amp;/, "&").scan(/\w+="[^"]+"/)
                         attributes = Hash.new
                         raw_attributes.each do |attr|
-                            attr_name, attr_value = attr.split("=")
+                            attr_name, attr_value = attr.split("=", 2)
                             attributes[attr_name] = attr_value[1..-2]
                         end
                         tag_start(name, attributes)
@@ -886,7 +886,7 @@ module Typelib
             # have a source file/line
             registry.each do |type|
                 if location = type.metadata.get('source_file_line').first
-                    file, line = location.split(':')
+                    file, _, line = location.rpartition(':')
                     line = Integer(line)
                     if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
                         type.metadata.set('doc', doc)
@@ -896,7 +896,7 @@ module Typelib
                 if type.respond_to?(:field_metadata)
                     type.field_metadata.each do |field_name, md|
                         if location = md.get('source_file_line').first
-                            file, line = location.split(':')
+                            file, _, line = location.rpartition(':')
                             line = Integer(line)
                             if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
                                 md.set('doc', doc)
-- 
2.43.0


From cd8733bc8158e79f387e911ed19f2e2d91b9de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:11 +0000
Subject: [PATCH 85/87] fix: ignore C++ classes that derive from an opaque

They made the whole import fail, as the fields of the opaque are not known.
---
 bindings/ruby/lib/typelib/gccxml.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 434d025..4c70fa9 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -623,7 +623,9 @@ module Typelib
                         end
 
                         base_type = registry.get(base_type_name)
-                        if child_node['virtual'] != '0'
+                        if !(base_type <= CompoundType)
+                            return ignore(xmlnode, "ignoring #{name}, its base class #{base_type_name} is not a compound")
+                        elsif child_node['virtual'] != '0'
                             return ignore(xmlnode, "ignoring #{name}, it has virtual base classes")
                         elsif child_node['access'] != 'public'
                             return ignore(xmlnode, "ignoring #{name}, it has private base classes")
-- 
2.43.0


From fa47965985afae43f298d27d56cea6cea8a968da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:07 +0000
Subject: [PATCH 86/87] fix: import const and volatile containers, arrays,
 pointers and template instances

The name made of theirs and of the qualifiers is not a valid type name, which
aborted the import. Refer to the type itself instead.
---
 bindings/ruby/lib/typelib/gccxml.rb | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 4c70fa9..0873013 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -461,7 +461,7 @@ module Typelib
             end
             if name = resolve_type_id(xmlnode['type'])
                 qualified_name = "#{name} #{spec.join(" ")}"
-                id_to_name[xmlnode['id']] = qualified_name
+                id_to_name[xmlnode['id']] = name
                 return qualified_name, name
             end
         end
@@ -548,7 +548,10 @@ module Typelib
             elsif kind == "CvQualifiedType"
                 qualified_name, name = resolve_qualified_type(xmlnode)
                 if qualified_name
-                    registry.alias(qualified_name, name)
+                    # Qualifiers cannot follow the name of a derived type
+                    if name !~ /[*\]>]\z/
+                        registry.alias(qualified_name, name)
+                    end
                     return name
                 else return
                 end
-- 
2.43.0


From 65377e23d1181a30095efde31d2b5c7ba787e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 87/87] fix: keep the C++ name of pointers to opaques that are
 typedefs

The C++ name of an opaque that stands for a typedef was only known once the
typedef itself had been looked at: what was derived from the opaque before
that did not get one.
---
 bindings/ruby/lib/typelib/gccxml.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 0873013..bcff9d1 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -794,6 +794,7 @@ module Typelib
                     opaque_t = registry.get(opaque_name)
                     set_source_file(opaque_t, node)
                     opaque_t.metadata.set('opaque_is_typedef', '1')
+                    opaque_t.metadata.set('cxxname', resolve_node_cxx_name(node))
                     registry.alias full_name, opaque_name
                     registry.alias normalized_name, opaque_name
                 end
-- 
2.43.0

