From ba73fb5806eedd57fe78b83739b47e4b20bc9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 01/34] fix: rewrite keeps the two fanins of a redirected node
 distinct

---
 include/operations/optimization/rewrite.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index db6f73b..2d7f929 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -322,11 +322,16 @@ class rewrite_impl
         auto nfo = _ntk.get_node(sfo);
         auto sc0 = _ntk.get_child0(nfo);
         auto sc1 = _ntk.get_child1(nfo);
+        // keep a fanin if its replacement makes both fanins identical, such a node would be treated as a combinational input
         if(_ntk.get_node(sc0) == old_n) {
-          _ntk.set_child0(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc0)));
+          auto new_sc0 = signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc0));
+          if(new_sc0 != sc1)
+            _ntk.set_child0(nfo, new_sc0);
         }
         if(_ntk.get_node(sc1) == old_n) {
-          _ntk.set_child1(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1)));
+          auto new_sc1 = signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1));
+          if(new_sc1 != sc0)
+            _ntk.set_child1(nfo, new_sc1);
         }
       }
     }
-- 
2.43.0


From 511583a633beb1b3fd0a389a0407af038c951283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 02/34] fix: rewrite no longer walks exponentially many paths
 to update the arrive depth

---
 include/operations/optimization/rewrite.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index 2d7f929..0e43a33 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -234,18 +234,16 @@ class rewrite_impl
    * @return depth for n
   */
   int update_arrive_depth(node_t const& n, std::vector<node_t> const& leaves) {
+    // the arrive depth of a leaf is known already, do not traverse the cone below it
+    if(std::find(leaves.begin(), leaves.end(), n) != leaves.end())
+      return _depth_arrive[n];
+
     int res = 0;
     _ntk.foreach_fanin(n, [&](auto const& sc){
       auto nc = _ntk.get_node(sc);
-      if(std::find(leaves.begin(), leaves.end(), nc) != leaves.end()) {
-        res = std::max(res, _depth_arrive[nc] + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], _depth_arrive[nc] + 1);
-      }
-      else {
-        res = std::max(res, update_arrive_depth(nc, leaves) + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], update_arrive_depth(nc, leaves) + 1);
-      }
+      res = std::max(res, update_arrive_depth(nc, leaves) + 1);
     });
+    _depth_arrive[n] = std::max(_depth_arrive[n], res);
     return res;
   }
 
-- 
2.43.0


From f2672d6e7989d6680f362d7d7ecacbcfb5f52136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 03/34] fix: cut sets have room for the documented priority
 size of up to 20 cuts

---
 include/database/cut/cut_enumeration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/cut/cut_enumeration.hpp b/include/database/cut/cut_enumeration.hpp
index b6e11c9..20782b7 100755
--- a/include/database/cut/cut_enumeration.hpp
+++ b/include/database/cut/cut_enumeration.hpp
@@ -155,7 +155,7 @@ template<typename Ntk, bool ComputeTruth, typename CutData>
 struct network_cuts
 {
 public:
-  static constexpr uint32_t max_cut_num = 12;
+  static constexpr uint32_t max_cut_num = 22;
   using cut_t     = cut_type<ComputeTruth, CutData>;
   using cut_set_t = cut_set<cut_t, max_cut_num>;
 
-- 
2.43.0


From 283b03a3ee3581a160ac2a9a7b5ef1a3caa86770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 04/34] fix: a destroyed depth_view is no longer called by the
 events of the network it viewed

---
 include/database/views/depth_view.hpp | 28 +++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index be6400d..e32f9a4 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -18,6 +18,7 @@
 #pragma once
 
 #include <cstdint>
+#include <memory>
 #include <vector>
 
 #include "utils/traits.hpp"
@@ -109,7 +110,7 @@ public:
     static_assert( has_foreach_po_v<Ntk>, "Ntk does not implement the foreach_po method" );
     static_assert( has_foreach_fanin_v<Ntk>, "Ntk does not implement the foreach_fanin method" );
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    register_on_add();
   }
 
   /*! \brief Standard constructor.
@@ -135,7 +136,7 @@ public:
 
     update_levels();
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    register_on_add();
   }
 
   // We should add these or make sure that members are properly copied
@@ -189,6 +190,18 @@ public:
   }
 
 private:
+  /* The events are shared with the base network, which may outlive this view. */
+  void register_on_add()
+  {
+    std::weak_ptr<char> alive = _alive.token;
+    Ntk::events().on_add.push_back( [this, alive]( auto const& n ) {
+      if ( !alive.expired() )
+      {
+        on_add( n );
+      }
+    } );
+  }
+
   uint32_t compute_levels( node const& n )
   {
     if ( this->visited( n ) == this->trav_id() )
@@ -274,11 +287,22 @@ private:
     _levels[n] = level + _cost_fn( *this, n );
   }
 
+  /* Lifetime token of one view object: it is never shared with a copy of the view. */
+  struct alive_token
+  {
+    alive_token() = default;
+    alive_token( alive_token const& ) {}
+    alive_token& operator=( alive_token const& ) { return *this; }
+
+    std::shared_ptr<char> token{std::make_shared<char>()};
+  };
+
   depth_view_params _ps;
   node_map<uint32_t, Ntk> _levels;
   node_map<uint32_t, Ntk> _crit_path;
   uint32_t _depth{};
   NodeCostFn _cost_fn;
+  alive_token _alive;
 };
 
 template<class T>
-- 
2.43.0


From a1c8f2258ca9befef8ba61e5fe36c8563ef3b8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 05/34] fix: depth_view::create_po accepts an input created
 after the levels were computed

---
 include/database/views/depth_view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index e32f9a4..190aa38 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -185,6 +185,7 @@ public:
   uint32_t create_po( signal const& f, std::string const& name = std::string() )
   {
     auto po = Ntk::create_po( f, name );
+    _levels.resize(); // inputs may have been added since the last gate
     _depth = std::max( _depth, _levels[f] );
     return po;
   }
-- 
2.43.0


From 14940c01f3c27a2d6f7d1188274e6dd9d87b12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 06/34] fix: structural hashing forgets exactly the removed
 node, not another one with the same fanins

---
 include/database/network/aig_network.hpp     |  4 ++--
 include/database/network/details/storage.hpp | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index dd47e56..f8ad313 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -517,7 +517,7 @@ public:
     const auto old_child1 = signal{node.children[1]};
 
     // erase old node in hash table
-    _storage->hash_erase(node);
+    _storage->hash_erase(n);
 
     // insert updated node into hash table
     node.children[0] = child0;
@@ -565,7 +565,7 @@ public:
     /* delete the node (ignoring it's current fanout_size) */
     auto& nobj = _storage->nodes[n];
     nobj.data[0].h1 = UINT32_C( 0x80000000 ); /* fanout size 0, but dead */
-    _storage->hash_erase(nobj);
+    _storage->hash_erase(n);
 
     for ( auto const& fn : _events->on_delete )
     {
diff --git a/include/database/network/details/storage.hpp b/include/database/network/details/storage.hpp
index 06a1f14..971da0a 100755
--- a/include/database/network/details/storage.hpp
+++ b/include/database/network/details/storage.hpp
@@ -104,16 +104,21 @@ struct storage
     ++num_entries;
   }
 
-  void hash_erase(node_type n)
+  // erase exactly the given node: another node may (temporarily) have the same fanins
+  void hash_erase(uint64_t index)
   {
-    uint64_t key = abc_hash(n, hash.size());
+    uint64_t key = abc_hash(nodes[index], hash.size());
     uint64_t cur = hash[key], pre = hash[key];
-    while(!(n == nodes[cur]) && nodes[cur].next != 0)
+    while(cur != index && cur != 0)
     {
       pre = cur;
       cur = nodes[cur].next;
     }
-    assert(n == nodes[cur]);
+    assert(cur == index);
+    if(cur != index)
+    {
+      return;
+    }
     if(cur == hash[key])
     {
       hash[key] = nodes[cur].next;
-- 
2.43.0


From bcc1e08ed4df8f8976ca5783f273188987354d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 07/34] fix: refactor accepts networks with dangling gates

---
 include/operations/optimization/refactor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index 2a45a3f..6151f7e 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -596,7 +596,9 @@ Ntk refactor(Ntk &ntk, refactor_params const &params)
 {
   RefactoringFn refactoring_fn;
   NodeCostFn cost_fn;
-  const auto dest = detail::refactor_impl<Ntk, RefactoringFn, NodeCostFn>{ntk,
+  // depths are only defined for the gates in the fanin cones of the outputs, so leave out the dangling ones
+  Ntk clean = cleanup_dangling<Ntk>(ntk);
+  const auto dest = detail::refactor_impl<Ntk, RefactoringFn, NodeCostFn>{clean,
                                                                           refactoring_fn,
                                                                           params,
                                                                           cost_fn}
-- 
2.43.0


From 1799c1b2ee93a2100e51c6bc52825f7f807063cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 08/34] fix: a network whose outputs are all trivial needs no
 mapping even when it has dangling gates

---
 .../operations/algorithms/network_to_klut.hpp | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/operations/algorithms/network_to_klut.hpp b/include/operations/algorithms/network_to_klut.hpp
index fc90b82..7b9c686 100644
--- a/include/operations/algorithms/network_to_klut.hpp
+++ b/include/operations/algorithms/network_to_klut.hpp
@@ -378,12 +378,27 @@ class collapse_mapped_choice_impl
     NtkSource const& ntk;
 };  // end class collapse_mapped_choice_impl
 
+/* no cell is needed when every output is a constant or a primary input, even if there are dangling gates */
+template<class NtkSource>
+bool is_mapping_missing( NtkSource const& ntk )
+{
+  if ( ntk.has_mapping() )
+    return false;
+
+  bool driven_by_gate = false;
+  ntk.foreach_po( [&]( typename NtkSource::signal const& f ) {
+    const auto n = ntk.get_node( f );
+    driven_by_gate |= !ntk.is_constant( n ) && !ntk.is_pi( n );
+  } );
+  return driven_by_gate;
+}
+
 };  // end namespace detail
 
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( detail::is_mapping_missing( ntk ) )
   {
     return std::nullopt;
   }
@@ -399,7 +414,7 @@ std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( detail::is_mapping_missing( ntk ) )
   {
     return false;
   }
@@ -415,7 +430,7 @@ bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( detail::is_mapping_missing( ntk ) )
   {
     return std::nullopt;
   }
@@ -431,7 +446,7 @@ std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool choice_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( detail::is_mapping_missing( ntk ) )
   {
     return false;
   }
-- 
2.43.0


From 2dba29e1afd4667a8f77c20f4621f22466815c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 09/34] fix: refactor visits each gate once when it recomputes
 the depth of a new cone

---
 include/operations/optimization/refactor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index 6151f7e..fa8f7fb 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -515,6 +515,8 @@ namespace detail
       {
         iter->second = cur_depth;
       }
+      // the depth of root is up to date now, do not descend into it again
+      leaves_set.insert(root);
 
       return cur_depth;
     }
-- 
2.43.0


From 39543d4d11cfe173c7b08a57d15996483050860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 10/34] fix: the trivial cut of a node with choices never
 becomes its best cut

---
 include/operations/algorithms/klut_mapping.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index ee87933..fb1f16d 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -383,6 +383,13 @@ class klut_mapping_impl
       }
 
       auto& cuts_repr = _cut_network.cuts(n);
+
+      // the trival cut carries no cut data to be sorted by, and it must not become the best cut; it is added again below
+      if( cuts_repr.size() > 1 && cuts_repr[cuts_repr.size() - 1].size() == 1u )
+      {
+        cuts_repr.remove( cuts_repr.size() - 1 );
+      }
+
       auto next_choice_node = _ntk.get_equiv_node(n);
 
       while(next_choice_node != AIG_NULL)
-- 
2.43.0


From 4992d603fa80ecedb2db169804f7f19445f2773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 11/34] fix: choice_miter stops at the constant of networks
 without inputs

---
 include/operations/algorithms/choice_miter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operations/algorithms/choice_miter.hpp b/include/operations/algorithms/choice_miter.hpp
index 0ae46ca..abc2a5c 100644
--- a/include/operations/algorithms/choice_miter.hpp
+++ b/include/operations/algorithms/choice_miter.hpp
@@ -214,8 +214,8 @@ private:
      */
     void dfs_recursion_po (std::shared_ptr<aig_network> aig, uint64_t index)
     {
-        // traversed to the PIs
-        if( aig->is_pi(index) )
+        // traversed to the constant or the PIs
+        if( aig->is_constant(index) || aig->is_pi(index) )
         {
             return;
         }
-- 
2.43.0


From 2caef51a7b741deecaee1942567e7735be788624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 12/34] fix: substitute_node keeps the target of a pending
 substitution alive

---
 include/database/network/aig_network.hpp | 33 +++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index f8ad313..f265dd1 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -594,33 +594,54 @@ public:
 
   void substitute_node( node const& old_node, signal const& new_signal )
   {
-    std::stack<std::pair<node, signal>> to_substitute;
-    to_substitute.push( {old_node, new_signal} );
+    std::vector<std::pair<node, signal>> to_substitute{ { old_node, new_signal } };
+    bool is_pending = false; /* pending substitutions hold a reference to their new signal */
 
     while ( !to_substitute.empty() )
     {
-      const auto [_old, _new] = to_substitute.top();
-      to_substitute.pop();
+      const auto [_old, _new] = to_substitute.back();
+      to_substitute.pop_back();
 
       for ( auto idx = 1u; idx < _storage->nodes.size(); ++idx )
       {
         if ( is_ci( idx ) || is_dead( idx ) )
           continue; /* ignore CIs */
 
+        if ( is_dead( _storage->nodes[idx].children[0].index ) || is_dead( _storage->nodes[idx].children[1].index ) )
+          continue; /* is substituted by itself */
+
         if ( const auto repl = replace_in_node( idx, _old, _new ); repl )
         {
-          to_substitute.push( *repl );
+          incr_fanout_size( get_node( repl->second ) );
+          to_substitute.push_back( *repl );
         }
       }
 
       /* check outputs */
       replace_in_outputs( _old, _new );
 
-      /* recursively reset old node */
       if ( _old != _new.index )
       {
+        /* pending substitutions by the old node */
+        for ( auto& s : to_substitute )
+        {
+          if ( get_node( s.second ) == _old )
+          {
+            s.second = is_complemented( s.second ) ? !_new : _new;
+            incr_fanout_size( get_node( _new ) );
+          }
+        }
+
+        /* recursively reset old node */
         take_out_node( _old );
       }
+
+      /* release the new signal of a pending substitution */
+      if ( is_pending && decr_fanout_size( get_node( _new ) ) == 0 )
+      {
+        take_out_node( get_node( _new ) );
+      }
+      is_pending = true;
     }
   }
 
-- 
2.43.0


From 3557541f22f33d70ebec6001a3eb1bcc43137860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 13/34] fix: substitute_nodes handles a gate that becomes
 identical to one it is to replace

---
 include/database/network/aig_network.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index f265dd1..59325f9 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -706,6 +706,14 @@ public:
         if ( const auto repl = replace_in_node( index, old_node, new_signal ); repl )
         {
           incr_fanout_size( get_node( repl->second ) );
+          /* a gate that was to be replaced by this node is now identical to it and stays */
+          const auto it = std::find_if( std::begin( substitutions ), std::end( substitutions ),
+                                        [&]( auto const& s ){ return s.first == get_node( repl->second ) && get_node( s.second ) == index; } );
+          if ( it != std::end( substitutions ) )
+          {
+            substitutions.erase( it );
+            decr_fanout_size( index );
+          }
           substitutions.emplace_back( *repl );
         }
       }
-- 
2.43.0


From 9043079aec3f5862a93518b85b128bffd212e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 14/34] fix: reading AIGER assigns port names by position, also
 when only some ports are named

---
 include/operations/io/reader.hpp | 64 +++++++++++---------------------
 1 file changed, 21 insertions(+), 43 deletions(-)

diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index 61a2d2d..ffaae4b 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -22,6 +22,7 @@
 #include <sstream>
 #include <cctype>
 #include <algorithm>
+#include <map>
 
 #include "utils/ifpga_namespaces.hpp"
 #include "network/aig_network.hpp"
@@ -66,10 +67,11 @@ template<typename Ntk>
 class aig_reader : public aiger_reader<Ntk> 
 {
 private:
-  mutable write_verilog_params _port_infos;
+  std::map<unsigned, std::string>& _input_names;
+  std::map<unsigned, std::string>& _output_names;
 public:
-  explicit aig_reader( Ntk& ntk, NameMap<Ntk>* names = nullptr ) 
-    :aiger_reader<Ntk>::aiger_reader(ntk, names) 
+  aig_reader( Ntk& ntk, std::map<unsigned, std::string>& input_names, std::map<unsigned, std::string>& output_names )
+    :aiger_reader<Ntk>::aiger_reader(ntk), _input_names(input_names), _output_names(output_names)
   {}
 
   ~aig_reader() {}
@@ -79,7 +81,8 @@ public:
     // keep base class manipulation
     this->aiger_reader<Ntk>::on_input_name(index, name);
     // store port name
-    _port_infos.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+    if(!name.empty())
+      _input_names[index] = name;
   }
   
   void on_output_name(unsigned index, const std::string& name) const override
@@ -87,15 +90,8 @@ public:
     // keep base class manipulation
     this->aiger_reader<Ntk>::on_output_name(index, name);
     // store port name
-    _port_infos.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-  }
-  
-  /**
-   * @brief return port names for write verilog
-   */
-  const write_verilog_params& get_params() const
-  { 
-    return _port_infos;
+    if(!name.empty())
+      _output_names[index] = name;
   }
 }; 
 
@@ -119,45 +115,27 @@ public:
   {
     assert( isFileExist(path_in) );
 
-    /// way1: use NameMap
-    NameMap<Ntk> nameMap;
-    auto const result = lorina::read_aiger( path_in , aiger_reader<Ntk>{_aig, &nameMap});
-
-    /// way2: use inherited class 
-    //aig_reader<iFPGA_NAMESPACE::aig_network> reader(_aig);
-    //auto const result = lorina::read_aiger( path_in , reader );
+    std::map<unsigned, std::string> inputNames, outputNames; // by position
+    auto const result = lorina::read_aiger( path_in , aig_reader<Ntk>{_aig, inputNames, outputNames});
 
     if( result == lorina::return_code::success )
     {
       // std::cout<< "\tINFO: read the aig file SUCCESS, path from: "<< path_in << std::endl;
       _state = true;
       aig = _aig;
-      /// Network + NameMap -> write_verilog_params
+      /// Network + port names -> write_verilog_params
       {
-        using signal = typename Ntk::signal;
-        std::map<uint64_t, uint32_t> signalCount; // for one signal has multiple names
-        for(auto input: aig._storage->inputs)
-        {
-          signal s = signal{input, 0};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-        for(auto output : aig._storage->outputs)
-        {
-          signal s = signal{output.index, output.weight};
-          auto names = nameMap[s];
-          if(!names.empty())
+        auto const ports = [](auto const& names, size_t num, std::string const& prefix, auto& infos) {
+          if(names.empty()) return;
+          // ports that have no name in the file get a default name
+          for(size_t i = 0; i < num; ++i)
           {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+            auto const it = names.find(i);
+            infos.emplace_back(to_escaped_identifier(it != names.end() ? it->second : prefix + std::to_string(i) + "_"), 0);
           }
-        }
+        };
+        ports(inputNames, aig.num_pis(), "_i", portnames.input_names);
+        ports(outputNames, aig.num_pos(), "_o", portnames.output_names);
       }
     }
     else
-- 
2.43.0


From 4b67f9fd8a7901910e79db495447ba91603b477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 15/34] fix: Verilog exports of networks without inputs or
 outputs are well-formed

---
 include/operations/io/detail/write_verilog.hpp | 6 ++++--
 include/operations/io/detail/writer_lut.hpp    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/operations/io/detail/write_verilog.hpp b/include/operations/io/detail/write_verilog.hpp
index 231bb62..c11acb3 100644
--- a/include/operations/io/detail/write_verilog.hpp
+++ b/include/operations/io/detail/write_verilog.hpp
@@ -180,7 +180,8 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
   writer.on_module_begin( ps.module_name, inputs, outputs );
   if ( ps.input_names.empty() )
   {
-    writer.on_input( xs );
+    if ( !xs.empty() )
+      writer.on_input( xs );
   }
   else
   {
@@ -198,7 +199,8 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
   }
   if ( ps.output_names.empty() )
   {
-    writer.on_output( ys );
+    if ( !ys.empty() )
+      writer.on_output( ys );
   }
   else
   {
diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 9cb953a..2111799 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -155,7 +155,8 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
   for (auto po : vec_pos)
   {
-    os << fmt::format( ", {}", po );
+    os << fmt::format( first ? "{}" : ", {}", po );
+    first = false;
   }
   os << ");\n";
   for(auto pi : vec_pis)
-- 
2.43.0


From 87914a912eac01fae78a66da8b976afd8b7371d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 16/34] fix: a LUT network built on an existing storage does
 not add another constant node

---
 include/database/network/klut_network.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 01071d6..b3c68ae 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -78,7 +78,11 @@ public:
       : _storage( storage ),
         _events( std::make_shared<decltype( _events )::element_type>() )
   {
-    _init();
+    /* the storage of an existing network has its constants already */
+    if ( _storage->nodes.size() < 2u )
+    {
+      _init();
+    }
   }
 
 private:
-- 
2.43.0


From dba1dc763f04b95edbf000cb5807325818066f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 17/34] fix: options of a shell command do not keep the values
 of an earlier call

---
 libs/alice/include/alice/command.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/alice/include/alice/command.hpp b/libs/alice/include/alice/command.hpp
index 96bf1d7..ebf8488 100644
--- a/libs/alice/include/alice/command.hpp
+++ b/libs/alice/include/alice/command.hpp
@@ -403,7 +403,9 @@ public:
   */
   inline auto add_flag( const std::string& name, bool& value, const std::string& description )
   {
-    return opts.add_flag( name, value, description );
+    const auto opt = opts.add_flag( name, value, description );
+    restore_defaults.emplace_back( [&value, initial = value]() { value = initial; } );
+    return opt;
   }
 
   /*! \brief Adds an option to the command
@@ -425,6 +427,7 @@ public:
   template<typename T>
   inline auto add_option( const std::string& name, T& value, const std::string& description, bool defaulted = false )
   {
+    restore_defaults.emplace_back( [&value, initial = value]() { value = initial; } );
     return opts.add_option( name, value, description, defaulted );
   }
 
@@ -549,6 +552,12 @@ protected:
   {
     opts.reset();
 
+    /* options that are not given have their default value, not the one of an earlier call */
+    for ( const auto& restore : restore_defaults )
+    {
+      restore();
+    }
+
     /* copy arguments (seems important to get the right grouping of arguments) */
     std::vector<std::string> _args( args.size() - 1 );
     std::transform( args.rbegin(), args.rend() - 1, _args.begin(), []( const auto& s ) {
@@ -603,6 +612,7 @@ public:
 
 private:
   std::string scaption;
+  std::vector<std::function<void()>> restore_defaults;
   std::vector<std::any> options;
   std::unordered_map<std::string, unsigned> option_index;
 
-- 
2.43.0


From b84224d03c696979bda85fed791853673fc49a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 18/34] fix: write_aiger without a network warns instead of
 failing

---
 cli/command/io/write_aiger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/command/io/write_aiger.hpp b/cli/command/io/write_aiger.hpp
index 574a20f..cf6d183 100644
--- a/cli/command/io/write_aiger.hpp
+++ b/cli/command/io/write_aiger.hpp
@@ -18,6 +18,7 @@ protected:
     void execute() {
         if( store<iFPGA::aig_network>().empty() ) {    // clear the previous store
             printf("WARN: there is no any stored AIG file, please refer to the command \"read_aiger\"\n");
+            return;
         }
         iFPGA::write_aiger( store<iFPGA::aig_network>().current(), filename);
     }
-- 
2.43.0


From 5a9691d731a674ad5671c293a59257aa7d2eb28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 19/34] fix: read_aiger keeps the session when the file does
 not exist

---
 cli/command/io/read_aiger.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/command/io/read_aiger.hpp b/cli/command/io/read_aiger.hpp
index 52f86ac..0388157 100644
--- a/cli/command/io/read_aiger.hpp
+++ b/cli/command/io/read_aiger.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <fstream>
 #include "alice/alice.hpp"
 #include "include/database/network/aig_network.hpp"
 #include "include/database/network/klut_network.hpp"
@@ -19,6 +20,10 @@ public:
 
 protected:
     void execute() {
+        if( !std::ifstream(filename).good() ) {
+            printf("WARN: the file \"%s\" can not be read\n", filename.c_str());
+            return;
+        }
         if( !store<iFPGA::aig_network>().empty() ) {    // clear the previous store
             store<iFPGA::aig_network>().clear();
             store<iFPGA::klut_network>().clear();
-- 
2.43.0


From e39d6699a8ceab52ee452823eb3669a3f6320802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 20/34] fix: map_fpga with choices warns when there is no
 history AIG

---
 cli/command/map_fpga.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/cli/command/map_fpga.hpp b/cli/command/map_fpga.hpp
index 6e9b3a2..96c1f9c 100644
--- a/cli/command/map_fpga.hpp
+++ b/cli/command/map_fpga.hpp
@@ -74,24 +74,26 @@ protected:
         param_mapping.uAreaIters = iAreaIter;
         param_mapping.verbose = verbose;
         
-        if(type == 1 && store<iFPGA::aig_network>().size() < 2) {
-            printf("WARN: there is no another history AIG files, please refer to the command \"history\"\n");
-            type = 0;
+        iFPGA::choice_miter cm;
+        if(type == 1) {
+            bool has_history = false;
+            for(int i = store<iFPGA::aig_network>().size() - 2; i >= 0; i--) {
+                iFPGA::aig_network aig = store<iFPGA::aig_network>()[i]._storage;
+                if(aig.num_gates() > 0) {
+                    cm.add_aig( std::make_shared<iFPGA::aig_network>(aig) );
+                    has_history = true;
+                }
+            }
+            if(!has_history) {
+                printf("WARN: there is no another history AIG files, please refer to the command \"history\"\n");
+                type = 0;
+            }
         }
 
         if(type == 1) { // mapping with choice
 
-            int i = 0;
-            iFPGA::choice_miter cm;
             iFPGA::choice_params params_choice;
 
-            for(i = store<iFPGA::aig_network>().size() - 2; i >= 0; i--) {
-                iFPGA::aig_network aig = store<iFPGA::aig_network>()[i]._storage;
-                if(aig.num_gates() > 0) {
-                    cm.add_aig( std::make_shared<iFPGA::aig_network>(aig) );
-                }
-            }
-        
             iFPGA::choice_computation cc(params_choice, cm.merge_aigs_to_miter());
 
             iFPGA::aig_with_choice awc = cc.compute_choice();
-- 
2.43.0


From a32d093888f5ba75b9242e175246f2c737d9e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 21/34] fix: history AIGs are copies that later optimizations
 do not change

---
 cli/command/history.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index 2fde652..9e90334 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -25,8 +25,7 @@ protected:
         }
 
         if (cadd && history_index + 1 <= max_size) {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
-            store<iFPGA::aig_network>()[++history_index] = aig;
+            store<iFPGA::aig_network>()[++history_index] = snapshot();
         }
 
         if (history_index + 1 > max_size) {
@@ -40,8 +39,7 @@ protected:
         } else if (index_replace > history_index || index_replace < -1) {
             printf("WARN: the replace index is out of range, please refer to the command \"history -h\"\n");
         } else {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
-            store<iFPGA::aig_network>()[index_replace] = aig; // replace the AIG file
+            store<iFPGA::aig_network>()[index_replace] = snapshot(); // replace the AIG file
         }
 
         if (cclear) {
@@ -61,6 +59,11 @@ protected:
     }
 
 private:
+    // a copy of the current AIG, optimizations that work in place must not change the history
+    iFPGA::aig_network snapshot() const {
+        return iFPGA::aig_network( std::make_shared<iFPGA::aig_storage>( *store<iFPGA::aig_network>().current()._storage ) );
+    }
+
     int max_size = 5;          // the history AIGs are indexed with {0,1,2,3,4}
     int history_index = -1;    
     bool cclear = false;
-- 
2.43.0


From af77563a48b6011e927bf18f54502713f041bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 22/34] fix: adding to a full history leaves the history usable

---
 cli/command/history.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index 9e90334..37d12c9 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -24,13 +24,10 @@ protected:
             return;
         }
 
-        if (cadd && history_index + 1 <= max_size) {
-            store<iFPGA::aig_network>()[++history_index] = snapshot();
-        }
-
-        if (history_index + 1 > max_size) {
+        if (cadd && history_index + 1 >= max_size) {
             printf("WARN: the max history size is %d, please refer to the command \"history -h\"\n", max_size);
-            return;
+        } else if (cadd) {
+            store<iFPGA::aig_network>()[++history_index] = snapshot();
         }
 
         // using current AIG to replace the indexed history AIG
-- 
2.43.0


From f8d6c1301cdbaa10af80f465fb57f09e2af5ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 23/34] fix: clearing the history or reading another file
 empties the history

---
 cli/command/history.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index 37d12c9..60ecdf7 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -24,6 +24,12 @@ protected:
             return;
         }
 
+        // the used indexes are those that hold a network, reading another file empties all of them
+        history_index = -1;
+        while (history_index + 1 < max_size && is_used(history_index + 1)) {
+            ++history_index;
+        }
+
         if (cadd && history_index + 1 >= max_size) {
             printf("WARN: the max history size is %d, please refer to the command \"history -h\"\n", max_size);
         } else if (cadd) {
@@ -40,6 +46,9 @@ protected:
         }
 
         if (cclear) {
+            for (int i = 0; i < max_size; ++i) {
+                store<iFPGA::aig_network>()[i] = iFPGA::aig_network();
+            }
             history_index = -1;
         }
 
@@ -61,6 +70,11 @@ private:
         return iFPGA::aig_network( std::make_shared<iFPGA::aig_storage>( *store<iFPGA::aig_network>().current()._storage ) );
     }
 
+    bool is_used(int index) const {
+        iFPGA::aig_network const& aig = store<iFPGA::aig_network>()[index];
+        return aig.num_pis() + aig.num_pos() > 0;
+    }
+
     int max_size = 5;          // the history AIGs are indexed with {0,1,2,3,4}
     int history_index = -1;    
     bool cclear = false;
-- 
2.43.0


From c2d5f9d2d56dcc93df9e5484d7883c5313209fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 24/34] fix: equivalence_checking: a counter-example for inputs
 that no clause mentions

---
 include/operations/algorithms/equivalence_checking.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operations/algorithms/equivalence_checking.hpp b/include/operations/algorithms/equivalence_checking.hpp
index 96d91cc..058ec71 100644
--- a/include/operations/algorithms/equivalence_checking.hpp
+++ b/include/operations/algorithms/equivalence_checking.hpp
@@ -86,6 +86,8 @@ public:
     stopwatch<> t( st_.time_total );
 
     percy::bsat_wrapper solver;
+    /* an input that no clause mentions has a value in the counter-example, too */
+    solver.set_nr_vars( miter_.num_pis() + 1 );
     int output = generate_cnf( miter_, [&]( auto const& clause ) {
       solver.add_clause( clause );
     } )[0];
-- 
2.43.0


From 27de2c4efb424589bb861af733dc71598ae6df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 25/34] fix: circuit_validator: blocked patterns do not outlive
 generate_pattern

---
 include/operations/algorithms/circuit_validator.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/operations/algorithms/circuit_validator.hpp b/include/operations/algorithms/circuit_validator.hpp
index 39e6b66..d6594e6 100644
--- a/include/operations/algorithms/circuit_validator.hpp
+++ b/include/operations/algorithms/circuit_validator.hpp
@@ -314,12 +314,15 @@ public:
 
     push();
 
+    /* the blocking clauses hold only together with a variable of this scope:
+       the solver does not take back binary clauses over older variables */
+    auto const block_lit = bill::lit_type( solver.add_variable(), bill::lit_type::polarities::positive );
     for ( auto const& pattern : block_patterns )
     {
-      block_pattern( pattern );
+      block_pattern( pattern, block_lit );
     }
 
-    std::vector<bill::lit_type> assumptions( {lit_not_cond( literals[root], !value )} );
+    std::vector<bill::lit_type> assumptions( {lit_not_cond( literals[root], !value ), ~block_lit} );
     if constexpr ( use_odc )
     {
       if ( ps.odc_levels != 0 )
@@ -341,7 +344,7 @@ public:
       else /* SAT */
       {
         generated.emplace_back( cex );
-        block_pattern( cex );
+        block_pattern( cex, block_lit );
       }
     }
 
@@ -568,10 +571,10 @@ private:
     return res;
   }
 
-  void block_pattern( std::vector<bool> const& pattern )
+  void block_pattern( std::vector<bool> const& pattern, bill::lit_type const& block_lit )
   {
     assert( pattern.size() == ntk.num_pis() );
-    std::vector<bill::lit_type> clause;
+    std::vector<bill::lit_type> clause{block_lit};
     ntk.foreach_pi( [&]( auto const& n, auto i ) {
       clause.emplace_back( lit_not_cond( literals[n] , pattern[i] ) );
     } );
-- 
2.43.0


From e9ec4285c9ec8dcecc21332c755c028f655adfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 26/34] fix: klut_network: compute on Booleans uses the fanin
 order of the LUT function

---
 include/database/network/klut_network.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index b3c68ae..ed3d1c9 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -737,11 +737,11 @@ signal create_maj( signal a, signal b, signal c )
   iterates_over_t<Iterator, bool>
   compute( node const& n, Iterator begin, Iterator end ) const
   {
+    /* the first fanin is the least significant bit, as in the truth table version below */
     uint32_t index{0};
-    while ( begin != end )
+    for ( auto i = 0u; begin != end; ++i )
     {
-      index <<= 1;
-      index ^= *begin++ ? 1 : 0;
+      index |= ( *begin++ ? 1u : 0u ) << i;
     }
     return kitty::get_bit( _storage->data.cache[_storage->nodes[n].data[1].h1], index );
   }
-- 
2.43.0


From 3163c552b0678f2da5254b313153886a806e05ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 27/34] fix: klut_network: custom node values do not change
 which nodes are inputs

---
 include/database/network/klut_network.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index ed3d1c9..c7d6a81 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -162,8 +162,6 @@ public:
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
     ++_storage->data.num_pis;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 1;
     return index;
   }
 
@@ -188,8 +186,6 @@ public:
     _storage->nodes.emplace_back();
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 3;
     return index;
   }
 
@@ -224,13 +220,14 @@ public:
 
   bool is_ci( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1 ||
-           _storage->nodes[n].data[0].h2 == 3;
+    /* inputs are the only nodes without fanins besides the constants;
+       data[0].h2 belongs to the custom values */
+    return n > 1 && _storage->nodes[n].children.empty();
   }
 
   bool is_pi( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1;
+    return is_ci( n ) && !is_ro( n );
   }
 
   bool is_ro( node const& n ) const
-- 
2.43.0


From d92ab0926efe851594cc0a7ede2b54c9e71e9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 28/34] fix: the default cut limit of 25 fits in a cut set

---
 include/database/cut/cut_enumeration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/cut/cut_enumeration.hpp b/include/database/cut/cut_enumeration.hpp
index 20782b7..37c4326 100755
--- a/include/database/cut/cut_enumeration.hpp
+++ b/include/database/cut/cut_enumeration.hpp
@@ -155,7 +155,7 @@ template<typename Ntk, bool ComputeTruth, typename CutData>
 struct network_cuts
 {
 public:
-  static constexpr uint32_t max_cut_num = 22;
+  static constexpr uint32_t max_cut_num = 26;
   using cut_t     = cut_type<ComputeTruth, CutData>;
   using cut_set_t = cut_set<cut_t, max_cut_num>;
 
-- 
2.43.0


From dfdad86a3297d922bc3ca801c5231cb6b0c8cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 29/34] fix: checker: an output that never differs is reported
 equal instead of aborting

---
 .../detail/checker_4_mapped_graph.hpp          | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/operations/algorithms/detail/checker_4_mapped_graph.hpp b/include/operations/algorithms/detail/checker_4_mapped_graph.hpp
index 069e427..b9a7004 100644
--- a/include/operations/algorithms/detail/checker_4_mapped_graph.hpp
+++ b/include/operations/algorithms/detail/checker_4_mapped_graph.hpp
@@ -184,6 +184,7 @@ private:
     void recycle_sat()
     {       
         _solver.restart();
+        _unsat = false;
 
         _sat_vars_map.assign(_ntk.size(), 0u);
         _current_sat_var = 1u;
@@ -488,13 +489,11 @@ private:
         lits[0] = make_lit(var1, false);
         lits[1] = make_lit(var2, false);
         int rett = _solver.add_clause(lits);
-        assert(rett);
-        (void)rett;
+        _unsat |= !rett; // a clause that cannot be satisfied is not kept by the solver
         lits[0] = make_lit(var1, true);
         lits[1] = make_lit(var2, true);
         rett = _solver.add_clause(lits);
-        assert(rett);
-        (void)rett;
+        _unsat |= !rett; // a clause that cannot be satisfied is not kept by the solver
     }
 
     /**
@@ -510,13 +509,11 @@ private:
         lits[0] = make_lit(var1, true );
         lits[1] = make_lit(var2, false);
         int rett = _solver.add_clause(lits);
-        assert(rett);
-        (void)rett;
+        _unsat |= !rett; // a clause that cannot be satisfied is not kept by the solver
         lits[0] = make_lit(var1, false);
         lits[1] = make_lit(var2, true);
         rett = _solver.add_clause(lits);
-        assert(rett);
-        (void)rett;
+        _unsat |= !rett; // a clause that cannot be satisfied is not kept by the solver
     }
 
 
@@ -547,7 +544,7 @@ private:
 
         // add xor to check
         add_compl_equal_to_solver(gold_var, gate_var);
-        auto ret = _solver.solve(_ps_sat.max_conflit_limit);
+        auto ret = _unsat ? percy::failure : _solver.solve(_ps_sat.max_conflit_limit);
 
         if(ret == percy::failure)
         {
@@ -617,7 +614,7 @@ private:
             }
         }
 
-        auto ret = _solver.solve(_ps_sat.max_conflit_limit);
+        auto ret = _unsat ? percy::failure : _solver.solve(_ps_sat.max_conflit_limit);
         if (ret == percy::failure)
         {
             return 1;
@@ -796,6 +793,7 @@ private:
     std::vector<uint32_t>   _sat_vars_map;
     uint32_t                _constant_max_sat_var;
     uint32_t                _current_sat_var;
+    bool                    _unsat{false};
     params_sat              _ps_sat;
 
     // record the first unequivalent node and signal
-- 
2.43.0


From 995f90187b7083ad696e39576f9840840d1c1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 30/34] fix: generated Verilog names never coincide with the
 names of ports

---
 .../operations/io/detail/write_verilog.hpp    | 32 +++++++++++++++----
 include/operations/io/detail/writer_lut.hpp   | 32 +++++++++++--------
 include/operations/io/reader.hpp              |  9 ++++--
 3 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/include/operations/io/detail/write_verilog.hpp b/include/operations/io/detail/write_verilog.hpp
index c11acb3..02d7fc7 100644
--- a/include/operations/io/detail/write_verilog.hpp
+++ b/include/operations/io/detail/write_verilog.hpp
@@ -20,6 +20,7 @@
 #include <array>
 #include <fstream>
 #include <iostream>
+#include <set>
 #include <string>
 
 #include <lorina/verilog.hpp>
@@ -49,6 +50,20 @@ format_fanin( Ntk const& ntk, node<Ntk> const& n, node_map<std::string, Ntk>& no
   return children;
 }
 
+/* an escaped identifier is the same as the identifier without the escape */
+inline std::string plain_identifier( std::string const& name )
+{
+  return !name.empty() && name[0] == '\\' ? name.substr( 1, name.find( ' ' ) - 1 ) : name;
+}
+
+/* a name that no other declaration uses */
+inline std::string unused_name( std::string name, std::set<std::string>& used )
+{
+  while ( !used.insert( name ).second )
+    name += '_';
+  return name;
+}
+
 } // namespace detail
 
 struct write_verilog_params
@@ -105,11 +120,16 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
 
   assert( ntk.is_combinational() && "Network has to be combinational" );
 
+  std::set<std::string> used;
+  for ( auto const& names : {ps.input_names, ps.output_names} )
+    for ( auto const& port : names )
+      used.insert( detail::plain_identifier( port.first ) );
+
   std::vector<std::string> xs, inputs;
   if ( ps.input_names.empty() )
   {
     for ( auto i = 0u; i < ntk.num_pis(); ++i )
-      xs.emplace_back( fmt::format( "x{}", i ) );
+      xs.emplace_back( detail::unused_name( fmt::format( "x{}", i ), used ) );
     inputs = xs;
   }
   else
@@ -142,7 +162,7 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
   if ( ps.output_names.empty() )
   {
     for ( auto i = 0u; i < ntk.num_pos(); ++i )
-      ys.emplace_back( fmt::format( "y{}", i ) );
+      ys.emplace_back( detail::unused_name( fmt::format( "y{}", i ), used ) );
     outputs = ys;
   }
   else
@@ -172,8 +192,10 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
   }
 
   std::vector<std::string> ws;
+  node_map<std::string, Ntk> node_names( ntk );
   ntk.foreach_gate( [&]( auto const& n ) {
-    ws.emplace_back( fmt::format( "n{}", ntk.node_to_index( n ) ) );
+    node_names[n] = detail::unused_name( fmt::format( "n{}", ntk.node_to_index( n ) ), used );
+    ws.emplace_back( node_names[n] );
   } );
 
   lorina::verilog_writer writer( os );
@@ -221,7 +243,6 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
     writer.on_wire( ws );
   }
 
-  node_map<std::string, Ntk> node_names( ntk );
   node_names[ntk.get_constant( false )] = "1'b0";
   if ( ntk.get_node( ntk.get_constant( false ) ) != ntk.get_node( ntk.get_constant( true ) ) )
     node_names[ntk.get_constant( true )] = "1'b1";
@@ -236,9 +257,6 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
     if ( ntk.is_constant( n ) || ntk.is_pi( n ) )
       return true;
 
-    /* assign a name */
-    node_names[n] = fmt::format( "n{}", ntk.node_to_index( n ) );
-
     if ( ntk.is_and( n ) )
     {
       writer.on_assign( node_names[n], detail::format_fanin<Ntk>( ntk, n, node_names ), "&" );
diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 2111799..2f05a09 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -23,7 +23,8 @@
 #include <iostream>
 #include <string>
 #include <vector>
-#include <unordered_set>
+#include <set>
+#include <unordered_map>
 
 #include <fmt/format.h>
 #include <kitty/operations.hpp>
@@ -76,12 +77,17 @@ struct LUT
 template<class Ntk>
 void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps)
 {
+  std::set<std::string> used;
+  for ( auto const& names : {ps.input_names, ps.output_names} )
+    for ( auto const& port : names )
+      used.insert( detail::plain_identifier( port.first ) );
+
   std::vector< std::string > vec_pis;
   std::map<uint32_t, std::string> pi_map;
   if(ps.input_names.empty())
   {
     ntk.foreach_pi( [&]( auto const& n ) {
-      vec_pis.emplace_back( fmt::format( "_i{}_", ntk.node_to_index(n)) );
+      vec_pis.emplace_back( detail::unused_name( fmt::format( "_i{}_", ntk.node_to_index(n)), used ) );
     } );
   }
   else
@@ -102,7 +108,7 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   {
     for ( auto i = 0u; i < ntk.num_pos(); ++i )
     {
-      vec_pos.emplace_back( fmt::format( "_o{}_", i ) );
+      vec_pos.emplace_back( detail::unused_name( fmt::format( "_o{}_", i ), used ) );
     }
   }
   else
@@ -115,11 +121,11 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
 
   std::vector< LUT > vec_LUTs;
-  std::unordered_set<uint32_t> uset_wires;    // using the set to flag the already exsit node.
+  std::unordered_map<uint32_t, std::string> wires;    // the nodes that exist already and the names of their wires
   ntk.foreach_node( [&]( auto const& n ) {
     if ( ntk.is_constant( n ) || ntk.is_pi( n ) )
       return; /* continue */
-    uset_wires.insert( ntk.node_to_index( n ) );
+    wires[ntk.node_to_index( n )] = detail::unused_name( fmt::format( "_w{}_", ntk.node_to_index( n ) ), used );
     LUT tmp_lut{};  
     tmp_lut.lut_function = ntk.node_function( n );
     ntk.foreach_fanin( n, [&]( auto const& c, auto i ) {
@@ -128,16 +134,16 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
         kitty::flip_inplace( tmp_lut.lut_function, i );
       }
       std::string tmp_fanin;
-      if( uset_wires.count(  ntk.node_to_index( ntk.get_node( c ) )  ) )
-        tmp_fanin =  fmt::format( "_w{}_", ntk.node_to_index( ntk.get_node( c ) ) );
+      if( wires.count(  ntk.node_to_index( ntk.get_node( c ) )  ) )
+        tmp_fanin =  wires[ntk.node_to_index( ntk.get_node( c ) )];
       else if (pi_map.count(ntk.node_to_index(ntk.get_node(c))))
         tmp_fanin =  fmt::format( "{}", pi_map[ntk.node_to_index( ntk.get_node( c ) )] );
       else
         assert(0);
       tmp_lut.fanins.emplace_back( tmp_fanin );
     } );
-    tmp_lut.name = fmt::format( "name{}", vec_LUTs.size() );
-    tmp_lut.fanout = fmt::format( "_w{}_", ntk.node_to_index( n ) );  // should be node , not output
+    tmp_lut.name = detail::unused_name( fmt::format( "name{}", vec_LUTs.size() ), used );
+    tmp_lut.fanout = wires[ntk.node_to_index( n )];  // should be node , not output
     vec_LUTs.emplace_back( tmp_lut );
   } );
 
@@ -167,9 +173,9 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   {
     os << fmt::format( "\toutput {} ;\n", po );
   }
-  for(auto wire : uset_wires)
+  for(auto const& wire : wires)
   {
-    os << fmt::format( "\twire _w{}_ ;\n", wire );
+    os << fmt::format( "\twire {} ;\n", wire.second );
   }
   
   for(auto lut : vec_LUTs)
@@ -206,9 +212,9 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
     }
     else
     {
-      os << fmt::format( "\tassign {} = _w{}_ ;\n",
+      os << fmt::format( "\tassign {} = {} ;\n",
                          vec_pos[i],
-                         ntk.node_to_index( ntk.get_node( s ) ) );
+                         wires[ntk.node_to_index( ntk.get_node( s ) )] );
     }
   } );
   os << "endmodule";
diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index ffaae4b..5f8f474 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -23,6 +23,7 @@
 #include <cctype>
 #include <algorithm>
 #include <map>
+#include <set>
 
 #include "utils/ifpga_namespaces.hpp"
 #include "network/aig_network.hpp"
@@ -125,13 +126,17 @@ public:
       aig = _aig;
       /// Network + port names -> write_verilog_params
       {
-        auto const ports = [](auto const& names, size_t num, std::string const& prefix, auto& infos) {
+        std::set<std::string> used;
+        for(auto const& names : {inputNames, outputNames})
+          for(auto const& name : names)
+            used.insert(name.second);
+        auto const ports = [&used](auto const& names, size_t num, std::string const& prefix, auto& infos) {
           if(names.empty()) return;
           // ports that have no name in the file get a default name
           for(size_t i = 0; i < num; ++i)
           {
             auto const it = names.find(i);
-            infos.emplace_back(to_escaped_identifier(it != names.end() ? it->second : prefix + std::to_string(i) + "_"), 0);
+            infos.emplace_back(to_escaped_identifier(it != names.end() ? it->second : detail::unused_name(prefix + std::to_string(i) + "_", used)), 0);
           }
         };
         ports(inputNames, aig.num_pis(), "_i", portnames.input_names);
-- 
2.43.0


From 5926397484929df707352489317213c28ca85e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 31/34] fix: ports named like a Verilog keyword are escaped

---
 include/operations/io/reader.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index 5f8f474..29f90e2 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -54,10 +54,30 @@ bool is_simple_identifier(const std::string& name)
           std::all_of(name.begin(), name.end(), is_simple_char);
 }
 
+// keywords of Verilog cannot name anything unless escaped
+bool is_verilog_keyword(const std::string& name)
+{
+  static const std::set<std::string> keywords {
+    "always", "and", "assign", "automatic", "begin", "buf", "bufif0", "bufif1", "case", "casex", "casez", "cell",
+    "cmos", "config", "deassign", "default", "defparam", "design", "disable", "edge", "else", "end", "endcase",
+    "endconfig", "endfunction", "endgenerate", "endmodule", "endprimitive", "endspecify", "endtable", "endtask",
+    "event", "for", "force", "forever", "fork", "function", "generate", "genvar", "highz0", "highz1", "if", "ifnone",
+    "incdir", "include", "initial", "inout", "input", "instance", "integer", "join", "large", "liblist", "library",
+    "localparam", "macromodule", "medium", "module", "nand", "negedge", "nmos", "nor", "noshowcancelled", "not",
+    "notif0", "notif1", "or", "output", "parameter", "pmos", "posedge", "primitive", "pull0", "pull1", "pulldown",
+    "pullup", "pulsestyle_ondetect", "pulsestyle_onevent", "rcmos", "real", "realtime", "reg", "release", "repeat",
+    "rnmos", "rpmos", "rtran", "rtranif0", "rtranif1", "scalared", "showcancelled", "signed", "small", "specify",
+    "specparam", "strong0", "strong1", "supply0", "supply1", "table", "task", "time", "tran", "tranif0", "tranif1",
+    "tri", "tri0", "tri1", "triand", "trior", "trireg", "unsigned", "use", "uwire", "vectored", "wait", "wand",
+    "weak0", "weak1", "while", "wire", "wor", "xnor", "xor"
+  };
+  return keywords.count(name) != 0;
+}
+
 std::string to_escaped_identifier(const std::string& name)
 {
   std::string escaped(name);
-  if(!is_simple_identifier(name))
+  if(!is_simple_identifier(name) || is_verilog_keyword(name))
   {
       escaped = '\\' + name + ' ';
   }
-- 
2.43.0


From ad9093e6eb0591e43238c9a158e6d8aa649272cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 32/34] fix: depth_view: the depth counts the inverter of an
 added output

---
 include/database/views/depth_view.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index 190aa38..cb50c8e 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -186,7 +186,12 @@ public:
   {
     auto po = Ntk::create_po( f, name );
     _levels.resize(); // inputs may have been added since the last gate
-    _depth = std::max( _depth, _levels[f] );
+    auto clevel = _levels[f];
+    if ( _ps.count_complements && this->is_complemented( f ) )
+    {
+      clevel++;
+    }
+    _depth = std::max( _depth, clevel );
     return po;
   }
 
-- 
2.43.0


From 7a72cc7cbfede3b5ecf7c19f1e360259ab5309ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 33/34] fix: depth_view: mark the nodes on critical paths

---
 include/database/views/depth_view.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index cb50c8e..3596d76 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -246,13 +246,18 @@ private:
       _depth = std::max( _depth, clevel );
     } );
 
-    // this->foreach_po( [&]( auto const& f ) {
-    //   const auto n = this->get_node( f );
-    //   if ( _levels[n] == _depth )
-    //   {
-    //     set_critical_path( n );
-    //   }
-    // } );
+    this->foreach_po( [&]( auto const& f ) {
+      const auto n = this->get_node( f );
+      auto clevel = _levels[n];
+      if ( _ps.count_complements && this->is_complemented( f ) )
+      {
+        clevel++;
+      }
+      if ( clevel == _depth && !_crit_path[n] )
+      {
+        set_critical_path( n );
+      }
+    } );
   }
 
   void set_critical_path( node const& n )
-- 
2.43.0


From feda6bd2c57ca11436663e12b4936de76af6d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:52 +0000
Subject: [PATCH 34/34] fix: the flow's scripts no longer edit the network they
 are given

---
 include/flow/flow_manager.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/flow/flow_manager.hpp b/include/flow/flow_manager.hpp
index 218ebec..1f830f5 100644
--- a/include/flow/flow_manager.hpp
+++ b/include/flow/flow_manager.hpp
@@ -161,7 +161,7 @@ private:
    */
   iFPGA_NAMESPACE::aig_network dch_compress(iFPGA_NAMESPACE::aig_network const &aig)
   {
-    iFPGA_NAMESPACE::aig_network caig(aig);
+    iFPGA_NAMESPACE::aig_network caig = iFPGA_NAMESPACE::cleanup_dangling(aig);  // a copy of the network object would share its storage
     iFPGA_NAMESPACE::rewrite_params ps_rewrite;
     iFPGA_NAMESPACE::refactor_params ps_refactor;
     ps_rewrite.b_preserve_depth = true;
@@ -183,7 +183,7 @@ private:
    */
   iFPGA_NAMESPACE::aig_network dch_compress2(iFPGA_NAMESPACE::aig_network const &aig)
   {
-    iFPGA_NAMESPACE::aig_network caig(aig);
+    iFPGA_NAMESPACE::aig_network caig = iFPGA_NAMESPACE::cleanup_dangling(aig);  // a copy of the network object would share its storage
     iFPGA_NAMESPACE::rewrite_params ps_rewrite;
     iFPGA_NAMESPACE::refactor_params ps_refactor;
     ps_rewrite.b_preserve_depth = false;
-- 
2.43.0

