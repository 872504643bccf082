From 27f4e94c0770ce6f3d680dda2ee1b84259552132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 001/123] fix: PushViterbiWeightsToGoal read node scores from
 an empty vector

---
 decoder/hg.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 46543b0..29b6303 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -199,15 +199,16 @@ void Hypergraph::PushWeightsToSource(double scale) {
 }
 
 namespace {
-struct vpusher : public vector<TropicalValue> {
+struct vpusher {
   int fid;
-  vpusher(int fid=0) : fid(fid) {  }
+  Hypergraph::NodeProbs const& np;
+  vpusher(int fid, Hypergraph::NodeProbs const& np) : fid(fid), np(np) {  }
   void operator()(int n,int /*ei*/,Hypergraph::Edge &e) const {
     Hypergraph::TailNodeVector const& t=e.tail_nodes_;
     prob_t p=e.edge_prob_;
     for (unsigned i=0;i<t.size();++i)
-      p*=(*this)[t[i]].v_;
-    e.feature_values_.set_value(fid,log(e.edge_prob_=p/(*this)[n].v_));
+      p*=np[t[i]];
+    e.feature_values_.set_value(fid,log(e.edge_prob_=p/np[n]));
   }
 };
 }
@@ -222,9 +223,9 @@ prob_t Hypergraph::ComputeNodeViterbi(NodeProbs *np) const
 
 // save pushed weight ot some fid if we want.  0 = don't care
 prob_t Hypergraph::PushViterbiWeightsToGoal(int fid) {
-  vpusher vi(fid);
   NodeProbs np;
   prob_t r=ComputeNodeViterbi(&np);
+  vpusher vi(fid, np);
   visit_edges(vi);
   return r;
 }
-- 
2.43.0


From b0784d2a5c4b81bbf61b55afce455c25dac875be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 002/123] fix: Outside() must only leave out the updated tail
 position, not every tail with the same node

---
 decoder/inside_outside.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/inside_outside.h b/decoder/inside_outside.h
index d5bda63..be769e0 100644
--- a/decoder/inside_outside.h
+++ b/decoder/inside_outside.h
@@ -84,7 +84,7 @@ void Outside(const Hypergraph& hg,
         WeightType inside_contribution = WeightType(1);
         for (int l = 0; l < num_tail_nodes; ++l) {
           const int other_tail_node_index = edge.tail_nodes_[l];
-          if (update_tail_node_index != other_tail_node_index)
+          if (k != l)
             inside_contribution *= inside_score[other_tail_node_index];
         }
         inside_contribution *= head_and_edge_weight;
-- 
2.43.0


From 13622cbcc79c173ae698ad9fc9a8361677679e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 003/123] fix: PruneInsideOutside computed sum-product
 marginals from unscaled edge scores

---
 decoder/hg.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 29b6303..e44764b 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -351,7 +351,11 @@ bool Hypergraph::PruneInsideOutside(double alpha,double density,const EdgeMask*
   else
     io.compute(*this,norm,ViterbiWeightFunction());  // the storage gets cast to Tropical from prob_t, scary - e.g. w/ specialized static allocator differences it could break.
   vector<prob_t> mm;
-  io.compute_edge_marginals(*this,mm,EdgeProb()); // should be normalized to 1 for best edges in viterbi.  in sum, best is less than 1.
+  // should be normalized to 1 for best edges in viterbi.  in sum, best is less than 1.
+  if (use_sum_prod_semiring)
+    io.compute_edge_marginals(*this,mm,ScaledEdgeProb(scale));
+  else
+    io.compute_edge_marginals(*this,mm,EdgeProb());
 
   prob_t cutoff=prob_t::One(); // we'll destroy everything smaller than this (note: nothing is bigger than 1).  so bigger cutoff = more pruning.
   bool density_won=false;
-- 
2.43.0


From b65a6eba8b9f6d9e94c5148f6a61aa72bc5ebeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 004/123] fix: density pruning could remove every derivation
 when best derivations tie up to rounding

---
 decoder/hg.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index e44764b..eab5acc 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -361,6 +361,11 @@ bool Hypergraph::PruneInsideOutside(double alpha,double density,const EdgeMask*
   bool density_won=false;
   if (use_density) {
     cutoff=nth_greatest(rnum,mm);
+    if (!use_sum_prod_semiring) {
+      // edges of (tied) best derivations have marginal 1 only up to rounding; never cut between them
+      const prob_t best_rounded=prob_t::exp(-1e-9);
+      if (cutoff>best_rounded) cutoff=best_rounded;
+    }
     density_won=true;
   }
   if (use_beam) {
-- 
2.43.0


From 175671af23a0338edbf6d0f7f0475984421e38bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 005/123] fix: nodes copied into a sub-forest kept no valid id
 (reindexed their own, unset id)

---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index c756012..21debbe 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -186,7 +186,7 @@ namespace HG {
     }
     void copy_reindex(Node const& o,indices_after const& n2,indices_after const& e2) {
       copy_fixed(o);
-      id_=n2[id_];
+      id_=n2[o.id_];
       e2.reindex_push_back(o.in_edges_,in_edges_);
       e2.reindex_push_back(o.out_edges_,out_edges_);
     }
-- 
2.43.0


From b3c8ab71b8c94bf198b4f52b78f7ac83843b2557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 006/123] fix: CreateNodeSubset kept edges whose head node was
 removed

---
 decoder/hg.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index eab5acc..e7578a9 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -688,6 +688,10 @@ void Hypergraph::TightenEdgeMask(EdgeMask &ke,NodeMask const& kn) const
   for (unsigned i = 0; i < edges_.size(); ++i) {
     if (ke[i]) {
       const Edge& edge = edges_[i];
+      if (!kn[edge.head_node_]) {
+        ke[i]=false;
+        continue;
+      }
       TailNodeVector const& tails=edge.tail_nodes_;
       for (unsigned j = 0; j < edge.tail_nodes_.size(); ++j) {
         if (!kn[tails[j]]) {
-- 
2.43.0


From 56eddce4abb28e444bf47d407b9acd1f67e97240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 007/123] fix: Hypergraph::Union dropped scores, spans,
 categories and node hashes of the second forest

---
 decoder/hg.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index e7578a9..b69f437 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -434,6 +434,7 @@ void Hypergraph::Union(const Hypergraph& other) {
   for (int i = 0; i < ogoal; ++i) {
     const Node& on = other.nodes_[i];
     Node& cn = nodes_[i + noff];
+    cn.copy_fixed(on);
     cn.id_ = i + noff;
     cn.in_edges_.resize(on.in_edges_.size());
     for (unsigned j = 0; j < on.in_edges_.size(); ++j)
@@ -447,9 +448,8 @@ void Hypergraph::Union(const Hypergraph& other) {
   for (unsigned i = 0; i < other.edges_.size(); ++i) {
     const Edge& oe = other.edges_[i];
     Edge& ce = edges_[i + eoff];
+    ce.copy_fixed(oe);
     ce.id_ = i + eoff;
-    ce.rule_ = oe.rule_;
-    ce.feature_values_ = oe.feature_values_;
     if (oe.head_node_ == ogoal) {
       ce.head_node_ = cgoal;
       nodes_[cgoal].in_edges_.push_back(ce.id_);
-- 
2.43.0


From 82fb4be15128a16a38b041adcc9f033def0034c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 008/123] fix: WriteAsCFG printed wrong nonterminal indices
 when target order is a cyclic permutation

---
 decoder/hg_io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index 71f50a2..586c98d 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -355,7 +355,8 @@ void HypergraphIO::WriteAsCFG(const Hypergraph& hg) {
       if (cur > 0) {
         f[j] = cur;
       } else {
-        tn[ntc++] = cur;
+        tn[-cur] = -ntc;  // position of source NT -cur among the printed NTs
+        ++ntc;
         f[j] = cats[edge.tail_nodes_[-cur]];
       }
     }
-- 
2.43.0


From 6740c1edb73bec8f006cbc6390a396ef36e35444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 009/123] fix: a node without a category came back from a
 binary forest with a bogus one

---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index 21debbe..70ae41b 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -175,7 +175,7 @@ namespace HG {
       ar & node_hash;
       ar & id_;
       std::string cat; ar & cat;
-      cat_ = -TD::Convert(cat);
+      cat_ = cat == TD::Convert(0) ? 0 : -TD::Convert(cat);  // 0: not set
       ar & in_edges_;
       ar & out_edges_;
     }
-- 
2.43.0


From af4cfc9f34d1333e221b9b0080f0954b846f138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 010/123] fix: printing a lattice as PLF lost the arc costs

---
 decoder/hg_io.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index 586c98d..6e04939 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -87,10 +87,19 @@ string HypergraphIO::AsPLF(const Hypergraph& hg, bool include_global_parentheses
   return os.str();
 }
 
-// TODO this should write out the PLF with the Python dictionary format
-// rather than just the single "LatticeCost" feature
-double PLFFeatureDictionary(const SparseVector<double>& f) {
-  return f.get(FD::Convert("LatticeCost"));
+// writes features in the Python dictionary format, e.g. {'LatticeCost_0':0.5}
+string PLFFeatureDictionary(const SparseVector<double>& f) {
+  ostringstream os;
+  os.precision(9);
+  os << '{';
+  bool first = true;
+  for (SparseVector<double>::const_iterator it = f.begin(); it != f.end(); ++it) {
+    if (!first) os << ',';
+    first = false;
+    os << '\'' << HypergraphIO::Escape(FD::Convert(it->first)) << "':" << it->second;
+  }
+  os << '}';
+  return os.str();
 }
 
 string HypergraphIO::AsPLF(const Lattice& lat, bool include_global_parentheses) {
-- 
2.43.0


From 1030d2001fa86ca8880ad56a5dccadcb47ebe670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 011/123] fix: distances of an earlier lattice leaked into a
 reused Lattice object

---
 decoder/lattice.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/lattice.cc b/decoder/lattice.cc
index 2740ce6..d27ad43 100644
--- a/decoder/lattice.cc
+++ b/decoder/lattice.cc
@@ -9,6 +9,7 @@ static const int kUNREACHABLE = 99999999;
 
 void Lattice::ComputeDistances() {
   const int n = this->size() + 1;
+  dist_.clear();
   dist_.resize(n, n, kUNREACHABLE);
   for (int i = 0; i < this->size(); ++i) {
     const vector<LatticeArc>& alts = (*this)[i];
-- 
2.43.0


From 8df2f7baafee68078093d2f6dd3e7f6bb2c9755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 012/123] fix: rule lexer overflowed fixed-size buffers on long
 rules

---
 decoder/rule_lexer.ll | 70 +++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index 8b48ab7..2dc896f 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -8,6 +8,7 @@
 #include <cstring>
 #include <cassert>
 #include <stack>
+#include <vector>
 #include "tdict.h"
 #include "fdict.h"
 #include "trule.h"
@@ -22,6 +23,15 @@ void* rule_callback_extra = NULL;
 std::vector<int> scfglex_phrase_fnames;
 std::string scfglex_fname;
 
+static int scfglex_phrase_fname(int i) {
+  while (scfglex_phrase_fnames.size() <= i) {
+    std::ostringstream os;
+    os << "PhraseModel_" << scfglex_phrase_fnames.size();
+    scfglex_phrase_fnames.push_back(FD::Convert(os.str()));
+  }
+  return scfglex_phrase_fnames[i];
+}
+
 #undef YY_INPUT
 #define YY_INPUT(buf, result, max_size) (result = scfglex_stream->read(buf, max_size).gcount())
 
@@ -32,31 +42,33 @@ bool fl = true;
 #define MAX_TOKEN_SIZE 255
 std::string scfglex_tmp_token(MAX_TOKEN_SIZE, '\0');
 
-#define MAX_RULE_SIZE 200
-WordID scfglex_src_rhs[MAX_RULE_SIZE];
-WordID scfglex_trg_rhs[MAX_RULE_SIZE];
+// buffers for the parts of the current rule; these grow as needed
+template <typename T>
+static T& scfglex_at(std::vector<T>& v, size_t i) {
+  if (i >= v.size()) v.resize(2 * i + 1);
+  return v[i];
+}
+std::vector<WordID> scfglex_src_rhs(200);
+std::vector<WordID> scfglex_trg_rhs(200);
 int scfglex_src_rhs_size;
 int scfglex_trg_rhs_size;
 WordID scfglex_lhs;
 int scfglex_src_arity;
 int scfglex_trg_arity;
 
-#define MAX_FEATS 10000
-int scfglex_feat_ids[MAX_FEATS];
-double scfglex_feat_vals[MAX_FEATS];
+std::vector<int> scfglex_feat_ids(1000);
+std::vector<double> scfglex_feat_vals(1000);
 int scfglex_num_feats;
 
-#define MAX_ARITY 1000
-int scfglex_nt_sanity[MAX_ARITY];
-int scfglex_src_nts[MAX_ARITY];
+std::vector<int> scfglex_nt_sanity;
+std::vector<int> scfglex_src_nts(100);
 // float scfglex_nt_size_means[MAX_ARITY];
 // float scfglex_nt_size_vars[MAX_ARITY];
 std::stack<TRulePtr> ctf_rule_stack;
 unsigned int ctf_level = 0;
 boost::shared_ptr<cdec::TreeFragment> scfglex_tree;
 
-#define MAX_ALS 2000
-AlignmentPoint scfglex_als[MAX_ALS];
+std::vector<AlignmentPoint> scfglex_als(200);
 int scfglex_num_als;
 
 void sanity_check_trg_symbol(WordID nt, int index) {
@@ -139,7 +151,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 
 <SRC>\[{NT}\]   {
 		scfglex_tmp_token.assign(yytext + 1, yyleng - 2);
-		scfglex_src_nts[scfglex_src_arity] = scfglex_src_rhs[scfglex_src_rhs_size] = -TD::Convert(scfglex_tmp_token);
+		scfglex_at(scfglex_src_nts, scfglex_src_arity) = scfglex_at(scfglex_src_rhs, scfglex_src_rhs_size) = -TD::Convert(scfglex_tmp_token);
 		++scfglex_src_arity;
 		++scfglex_src_rhs_size;
 		}
@@ -156,7 +168,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 			std::cerr << "Src indices must go in order: expected " << scfglex_src_arity << " but got " << index << std::endl;
 			abort();
 		}
-		scfglex_src_nts[scfglex_src_arity] = scfglex_src_rhs[scfglex_src_rhs_size] = -TD::Convert(scfglex_tmp_token);
+		scfglex_at(scfglex_src_nts, scfglex_src_arity) = scfglex_at(scfglex_src_rhs, scfglex_src_rhs_size) = -TD::Convert(scfglex_tmp_token);
 		++scfglex_src_rhs_size;
 		++scfglex_src_arity;
 		}
@@ -173,7 +185,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		// std::cerr << "TRG INDEX: " << index << std::endl;
 		sanity_check_trg_symbol(-TD::Convert(scfglex_tmp_token), index);
 		sanity_check_trg_index(index);
-		scfglex_trg_rhs[scfglex_trg_rhs_size] = 1 - index;
+		scfglex_at(scfglex_trg_rhs, scfglex_trg_rhs_size) = 1 - index;
 		++scfglex_trg_rhs_size;
 }
 
@@ -184,7 +196,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		}
 		++scfglex_trg_arity;
 		sanity_check_trg_index(index);
-		scfglex_trg_rhs[scfglex_trg_rhs_size] = 1 - index;
+		scfglex_at(scfglex_trg_rhs, scfglex_trg_rhs_size) = 1 - index;
 		++scfglex_trg_rhs_size;
 }
 
@@ -199,12 +211,12 @@ NT ([^\t \n\r\[\],]+|Goal)
 		}
 
 <SRC>\|\|\|	{
-		memset(scfglex_nt_sanity, 0, scfglex_src_arity * sizeof(int));
+		scfglex_nt_sanity.assign(scfglex_src_arity, 0);
 		if (lex_mono_rules) { BEGIN(FEATS); } else { BEGIN(TRG); }
 		}
 <SRC>[^ \t\n\r]+	{
 		scfglex_tmp_token.assign(yytext, yyleng);
-		scfglex_src_rhs[scfglex_src_rhs_size] = TD::Convert(scfglex_tmp_token);
+		scfglex_at(scfglex_src_rhs, scfglex_src_rhs_size) = TD::Convert(scfglex_tmp_token);
 		++scfglex_src_rhs_size;
 		}
 <SRC>[ \t]+	{ ; }
@@ -220,7 +232,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		}
 <TRG>[^ \t\n\r]+	{
 		scfglex_tmp_token.assign(yytext, yyleng);
-		scfglex_trg_rhs[scfglex_trg_rhs_size] = TD::Convert(scfglex_tmp_token);
+		scfglex_at(scfglex_trg_rhs, scfglex_trg_rhs_size) = TD::Convert(scfglex_tmp_token);
 		++scfglex_trg_rhs_size;
 		}
 <TRG>[ \t]+	{ ; }
@@ -233,6 +245,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		  }
 		  scfglex_trg_arity = scfglex_src_arity;
 		  scfglex_trg_rhs_size = scfglex_src_rhs_size;
+		  if (scfglex_trg_rhs.size() < scfglex_src_rhs.size()) scfglex_trg_rhs.resize(scfglex_src_rhs.size());
 		  int ntc = 0;
 		  for (int i = 0; i < scfglex_src_rhs_size; ++i)
 		    if (scfglex_trg_rhs[i] <= 0)
@@ -246,7 +259,7 @@ NT ([^\t \n\r\[\],]+|Goal)
                 }
 		// const bool ignore_grammar_features = false;
 		// if (ignore_grammar_features) scfglex_num_feats = 0;
-		TRulePtr rp(new TRule(scfglex_lhs, scfglex_src_rhs, scfglex_src_rhs_size, scfglex_trg_rhs, scfglex_trg_rhs_size, scfglex_feat_ids, scfglex_feat_vals, scfglex_num_feats, scfglex_src_arity, scfglex_als, scfglex_num_als));
+		TRulePtr rp(new TRule(scfglex_lhs, &scfglex_src_rhs[0], scfglex_src_rhs_size, &scfglex_trg_rhs[0], scfglex_trg_rhs_size, &scfglex_feat_ids[0], &scfglex_feat_vals[0], scfglex_num_feats, scfglex_src_arity, &scfglex_als[0], scfglex_num_als));
 		if (scfglex_tree) {
 		  if (scfglex_tree->frontier_sites != rp->Arity()) {
 		    std::cerr << "Arity mismatch with tree annotation: " << *scfglex_tree << std::endl;
@@ -277,7 +290,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 			std::cerr << "\nUNWEIGHED FEATURE " << scfglex_tmp_token << std::endl;
 			abort();
 		}
-		scfglex_feat_ids[scfglex_num_feats] = fid;
+		scfglex_at(scfglex_feat_ids, scfglex_num_feats) = fid;
 		BEGIN(FEATVAL);
 		}
 <FEATS>\|\|\|	{
@@ -287,7 +300,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		BEGIN(TREE);
 		}
 <FEATVAL>{REAL}	{
-		scfglex_feat_vals[scfglex_num_feats] = strtod(yytext, NULL);
+		scfglex_at(scfglex_feat_vals, scfglex_num_feats) = strtod(yytext, NULL);
 		++scfglex_num_feats;
 		BEGIN(FEATS);
 		}
@@ -296,8 +309,8 @@ NT ([^\t \n\r\[\],]+|Goal)
 		abort();
 		}
 <FEATS>{REAL} 	{
-		scfglex_feat_ids[scfglex_num_feats] = scfglex_phrase_fnames[scfglex_num_feats];
-		scfglex_feat_vals[scfglex_num_feats] = strtod(yytext, NULL);
+		scfglex_at(scfglex_feat_ids, scfglex_num_feats) = scfglex_phrase_fname(scfglex_num_feats);
+		scfglex_at(scfglex_feat_vals, scfglex_num_feats) = strtod(yytext, NULL);
 		++scfglex_num_feats;
 		}
 <FEATS>.	{
@@ -321,7 +334,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		  b += yytext[i] - '0';
 		  ++i;
 		}
-		scfglex_als[scfglex_num_als++]=AlignmentPoint(a,b);
+		scfglex_at(scfglex_als, scfglex_num_als++)=AlignmentPoint(a,b);
 		}
 <ALIGNS>[ \t]	;
 <ALIGNS>.	{
@@ -333,14 +346,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 #include "filelib.h"
 
 static void init_default_feature_names() {
-  if (scfglex_phrase_fnames.empty()) {
-    scfglex_phrase_fnames.resize(100);
-    for (int i = 0; i < scfglex_phrase_fnames.size(); ++i) {
-      std::ostringstream os;
-      os << "PhraseModel_" << i;
-      scfglex_phrase_fnames[i] = FD::Convert(os.str());
-    }
-  }
+  if (scfglex_phrase_fnames.empty()) scfglex_phrase_fname(99);
 }
 
 void RuleLexer::ReadRules(std::istream* in, RuleLexer::RuleCallback func, const std::string& fname, void* extra) {
-- 
2.43.0


From e9d38583ea4c091eb6a81b3b6ada83263d3c7764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 013/123] fix: rule lexer lost a last line without newline and
 leaked its state into the next file

---
 decoder/rule_lexer.ll | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index 2dc896f..d7efba5 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -32,8 +32,22 @@ static int scfglex_phrase_fname(int i) {
   return scfglex_phrase_fnames[i];
 }
 
+// the last character read from scfglex_stream
+static char scfglex_last = '\n';
+
+// reads from scfglex_stream; terminates the last line if it lacks a newline
+static int scfglex_read(char* buf, int max_size) {
+  int n = scfglex_stream->read(buf, max_size).gcount();
+  if (n == 0 && scfglex_last != '\n') {
+    buf[0] = '\n';
+    n = 1;
+  }
+  if (n > 0) scfglex_last = buf[n - 1];
+  return n;
+}
+
 #undef YY_INPUT
-#define YY_INPUT(buf, result, max_size) (result = scfglex_stream->read(buf, max_size).gcount())
+#define YY_INPUT(buf, result, max_size) (result = scfglex_read(buf, max_size))
 
 #define YY_SKIP_YYWRAP 1
 int num_rules = 0;
@@ -357,6 +371,9 @@ void RuleLexer::ReadRules(std::istream* in, RuleLexer::RuleCallback func, const
   scfglex_stream = in;
   rule_callback_extra = extra,
   rule_callback = func;
+  scfglex_last = '\n';
+  ctf_level = 0;
+  BEGIN(INITIAL);
   yylex();
 }
 
-- 
2.43.0


From aafeaff5269773b843ad45a9dad4bbd9b5f5114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 014/123] fix: rule lexer echoed blank lines of a grammar to
 standard output

---
 decoder/rule_lexer.ll | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index d7efba5..e194c36 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -156,6 +156,11 @@ NT ([^\t \n\r\[\],]+|Goal)
   ctf_level++;
   };
 
+<INITIAL>\r?\n	{
+  lex_line++;
+  ctf_level = 0;
+  }
+
 <INITIAL>\[{NT}\]   {
 		scfglex_tmp_token.assign(yytext + 1, yyleng - 2);
 		scfglex_lhs = -TD::Convert(scfglex_tmp_token);
-- 
2.43.0


From 1c75bfcb017159f265fd94c4f25b433215f2af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 015/123] fix: TRule::AsString dropped the alignment of a rule
 without features

---
 decoder/trule.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/trule.cc b/decoder/trule.cc
index bee211d..5cb7cae 100644
--- a/decoder/trule.cc
+++ b/decoder/trule.cc
@@ -97,7 +97,7 @@ string TRule::AsString(bool verbose) const {
     else
       os << TD::Convert(w);
   }
-  if (!scores_.empty() && verbose) {
+  if (verbose && (!scores_.empty() || !a_.empty())) {
     os << " ||| " << scores_;
     if (!a_.empty()) {
       os << " |||";
-- 
2.43.0


From f10b86ddd45ee13106408b0cfbab6f4259b32982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 016/123] fix: precomputation took patterns reaching past the
 end of the data

---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 3e58e2a..0cfdfd3 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -84,7 +84,7 @@ vector<vector<int>> Precomputation::FindMostFrequentPatterns(
     for (int len = lcp[i]; len < max_frequent_phrase_len; ++len) {
       int frequency = i - run_start[len];
       int start = suffix_array->GetSuffix(run_start[len]);
-      if (frequency >= min_frequency && start + len <= data.size()) {
+      if (frequency >= min_frequency && start + len < data.size()) {
         heap.push(make_pair(frequency, make_pair(start, len + 1)));
       }
       run_start[len] = i;
-- 
2.43.0


From 60ff6be05160857e665241b2695d734d6c2ec828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 017/123] fix: precomputed ternary collocations kept the tail
 of a longer last chunk

---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 0cfdfd3..27dea58 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -160,7 +160,7 @@ void Precomputation::UpdateIndex(
                 && (is_super1 || is_super3)) {
               AppendSubpattern(pattern, annotations[k]);
               AppendCollocation(index[pattern], start1, start2, start3);
-              pattern.erase(pattern.end() - size3);
+              pattern.erase(pattern.end() - size3, pattern.end());
             }
           }
         }
-- 
2.43.0


From b6ec92c0fe94b03c11e2f4b10f50dfb666ca6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 018/123] fix: order of three or more gaps on the target side
 of extracted rules

---
 extractor/rule_extractor_helper.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/extractor/rule_extractor_helper.cc b/extractor/rule_extractor_helper.cc
index d7e332d..6e0c86c 100644
--- a/extractor/rule_extractor_helper.cc
+++ b/extractor/rule_extractor_helper.cc
@@ -1,5 +1,7 @@
 #include "rule_extractor_helper.h"
 
+#include <algorithm>
+
 #include "data_array.h"
 #include "alignment.h"
 
@@ -331,16 +333,13 @@ bool RuleExtractorHelper::GetGaps(
 
 vector<int> RuleExtractorHelper::GetGapOrder(
     const vector<pair<int, int>>& gaps) const {
+  // The i-th entry is the index of the i-th gap in increasing order.
   vector<int> gap_order(gaps.size());
   for (size_t i = 0; i < gap_order.size(); ++i) {
-    for (size_t j = 0; j < i; ++j) {
-      if (gaps[gap_order[j]] < gaps[i]) {
-        ++gap_order[i];
-      } else {
-        ++gap_order[j];
-      }
-    }
+    gap_order[i] = i;
   }
+  sort(gap_order.begin(), gap_order.end(),
+       [&gaps](int a, int b) { return gaps[a] < gaps[b]; });
   return gap_order;
 }
 
-- 
2.43.0


From 378cb08a3031c98cd8c3183feff4a8af7700b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 019/123] fix: references without a final newline or with an
 empty line

---
 mteval/ns_docscorer.cc | 2 +-
 mteval/scorer.cc       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mteval/ns_docscorer.cc b/mteval/ns_docscorer.cc
index 242f134..80abda1 100644
--- a/mteval/ns_docscorer.cc
+++ b/mteval/ns_docscorer.cc
@@ -66,7 +66,6 @@ void DocumentScorer::Init(const EvaluationMetric* metric,
     refs.clear();
     for (int i=0; i < ref_files.size(); ++i) {
       istream &in=ifs[i].get();
-      if (in.eof()) break;
       in.getline(buf, 64000);
       if (strlen(buf) == 0) {
         if (in.eof()) {
@@ -91,6 +90,7 @@ void DocumentScorer::Init(const EvaluationMetric* metric,
       assert(!expect_eof);
     }
     if (!expect_eof) {
+      if (refs.empty()) refs.resize(1);  // an empty line is an empty reference
       string src_line;
       //if (srcrf) {
       //  getline(srcrf.get(), src_line);
diff --git a/mteval/scorer.cc b/mteval/scorer.cc
index 71e05e9..bf462e8 100644
--- a/mteval/scorer.cc
+++ b/mteval/scorer.cc
@@ -647,7 +647,6 @@ void DocScorer::Init(
     vector<vector<WordID> > refs;
     for (int i=0; i < ref_files.size(); ++i) {
       istream &in=ifs[i].get();
-      if (in.eof()) break;
       in.getline(buf, 64000);
       if (strlen(buf) == 0) {
         if (in.eof()) {
@@ -672,6 +671,7 @@ void DocScorer::Init(
       assert(!expect_eof);
     }
     if (!expect_eof) {
+      if (refs.empty()) refs.resize(1);  // an empty line is an empty reference
       string src_line;
       if (srcrf) {
         getline(srcrf.get(), src_line);
-- 
2.43.0


From a32c24eaa8e18356f6f78c0a502cc999bfe60911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 020/123] fix: CER ignored references at least as far away as
 the empty string

---
 mteval/ns_cer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mteval/ns_cer.cc b/mteval/ns_cer.cc
index da6683b..fa86882 100644
--- a/mteval/ns_cer.cc
+++ b/mteval/ns_cer.cc
@@ -19,11 +19,11 @@ void CERMetric::ComputeSufficientStatistics(const std::vector<WordID>& hyp,
                                             SufficientStats* out) const {
   out->fields.resize(kNUMFIELDS);
   std::string hyp_str(TD::GetString(hyp));
-  float best_score = hyp_str.size();
+  float best_score = 0;
   for (size_t i = 0; i < refs.size(); ++i) {
     std::string ref_str(TD::GetString(refs[i]));
     float score = cdec::LevenshteinDistance(hyp_str, ref_str);
-    if (score < best_score) {
+    if (score < best_score || i == 0) {
       out->fields[kEDITDISTANCE] = score;
       out->fields[kCHARCOUNT] = ref_str.size();
       best_score = score;
-- 
2.43.0


From c91da1e2aa5baa47c9709ac321f73c4cc3195f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 021/123] fix: splitting a word that is not valid UTF-8 into
 characters never ended

---
 mteval/scorer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mteval/scorer.cc b/mteval/scorer.cc
index bf462e8..a85b6cb 100644
--- a/mteval/scorer.cc
+++ b/mteval/scorer.cc
@@ -720,6 +720,7 @@ vector<WordID> Characterize(const vector<WordID>& reference) {
     unsigned i = 0;
     while (i < word.length()) {
       unsigned char_length = UTF8Len(word[i]);
+      if (!char_length) char_length = 1;  // not UTF-8
       string c = word.substr(i, char_length);
       i += char_length;
       r.push_back(TD::Convert(c));
-- 
2.43.0


From 784826101a54a2dc1288cac9ac055c74de485b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 022/123] fix: CER counted bytes rather than characters

---
 mteval/ns_cer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mteval/ns_cer.cc b/mteval/ns_cer.cc
index fa86882..d4a1971 100644
--- a/mteval/ns_cer.cc
+++ b/mteval/ns_cer.cc
@@ -18,14 +18,14 @@ void CERMetric::ComputeSufficientStatistics(const std::vector<WordID>& hyp,
                                             const std::vector<std::vector<WordID> >& refs,
                                             SufficientStats* out) const {
   out->fields.resize(kNUMFIELDS);
-  std::string hyp_str(TD::GetString(hyp));
+  const std::vector<WordID> hyp_chars = Characterize(hyp);
   float best_score = 0;
   for (size_t i = 0; i < refs.size(); ++i) {
-    std::string ref_str(TD::GetString(refs[i]));
-    float score = cdec::LevenshteinDistance(hyp_str, ref_str);
+    const std::vector<WordID> ref_chars = Characterize(refs[i]);
+    float score = cdec::LevenshteinDistance(hyp_chars, ref_chars);
     if (score < best_score || i == 0) {
       out->fields[kEDITDISTANCE] = score;
-      out->fields[kCHARCOUNT] = ref_str.size();
+      out->fields[kCHARCOUNT] = ref_chars.size();
       best_score = score;
     }
   }
-- 
2.43.0


From 40ca360439f36170bbbd250427eae91faf45c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 023/123] fix: CBLEUScorer compared words of the hypothesis
 with characters of the references

---
 mteval/scorer.cc | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/mteval/scorer.cc b/mteval/scorer.cc
index a85b6cb..5eb9420 100644
--- a/mteval/scorer.cc
+++ b/mteval/scorer.cc
@@ -296,21 +296,6 @@ ScoreP BLEUScorerBase::ScoreFromString(const string& in) {
   return ScoreP(r);
 }
 
-class CBLEUScorer : public BLEUScorerBase {
- public:
-  CBLEUScorer(const vector<vector<WordID> >& references,
-  int n=5) : BLEUScorerBase(Characterize(references), n), lengths_(references.size()) {
-    for (unsigned i=0; i < references.size(); ++i)
-      lengths_[i] = Characterize(references[i]).size();
-  }
-
-  float ComputeRefLength(const vector<WordID>& hyp) const {
-    return 1000;
-  }
- private:
-  vector<int> lengths_;
-};
-
 class IBM_BLEUScorer : public BLEUScorerBase {
  public:
     IBM_BLEUScorer(const vector<vector<WordID> >& references,
@@ -336,6 +321,19 @@ class IBM_BLEUScorer : public BLEUScorerBase {
   vector<int> lengths_;
 };
 
+class CBLEUScorer : public IBM_BLEUScorer {
+ public:
+  CBLEUScorer(const vector<vector<WordID> >& references,
+  int n=5) : IBM_BLEUScorer(Characterize(references), n) {}
+
+  ScoreP ScoreCandidate(const vector<WordID>& hyp) const {
+    return IBM_BLEUScorer::ScoreCandidate(Characterize(hyp));
+  }
+  ScoreP ScoreCCandidate(const vector<WordID>& hyp) const {
+    return IBM_BLEUScorer::ScoreCCandidate(Characterize(hyp));
+  }
+};
+
 class NIST_BLEUScorer : public BLEUScorerBase {
  public:
     NIST_BLEUScorer(const vector<vector<WordID> >& references,
-- 
2.43.0


From af8151ebce67832e08d4e807056907407b8147ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 024/123] fix: adding a TER score with a factor always threw

---
 mteval/ter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mteval/ter.cc b/mteval/ter.cc
index 19b90bb..b49e07c 100644
--- a/mteval/ter.cc
+++ b/mteval/ter.cc
@@ -438,9 +438,10 @@ class TERScore : public ScoreBase<TERScore> {
   void PlusEquals(const Score& delta, const float scale) {
     if (scale==1)
       stats += static_cast<const TERScore&>(delta).stats;
-    if (scale==-1)
+    else if (scale==-1)
       stats -= static_cast<const TERScore&>(delta).stats;
-    throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
+    else
+      throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
  }
   void PlusEquals(const Score& delta) {
     stats += static_cast<const TERScore&>(delta).stats;
-- 
2.43.0


From 808fd88864a13fc5ebf4fdd62debc515749ea05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 025/123] fix: encoded sufficient statistics lost digits

---
 mteval/comb_scorer.cc | 4 ++--
 mteval/ns.cc          | 1 +
 mteval/scorer.cc      | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mteval/comb_scorer.cc b/mteval/comb_scorer.cc
index 63f327c..e046821 100644
--- a/mteval/comb_scorer.cc
+++ b/mteval/comb_scorer.cc
@@ -89,7 +89,7 @@ ScoreP BLEUTERCombinationScorer::ScoreCandidate(const std::vector<WordID>& hyp)
 }
 
 ScoreP BLEUTERCombinationScorer::ScoreFromString(const std::string& in) {
-  int bss = in[0];
+  int bss = static_cast<unsigned char>(in[0]);
   BLEUTERCombinationScore* r = new BLEUTERCombinationScore;
   r->bleu = SentenceScorer::CreateScoreFromString(IBM_BLEU, in.substr(1, bss));
   r->ter = SentenceScorer::CreateScoreFromString(TER, in.substr(1 + bss));
@@ -182,7 +182,7 @@ ScoreP BLEUCBLEUCombinationScorer::ScoreCandidate(const std::vector<WordID>& hyp
 }
 
 ScoreP BLEUCBLEUCombinationScorer::ScoreFromString(const std::string& in) {
-  int bss = in[0];
+  int bss = static_cast<unsigned char>(in[0]);
   BLEUCBLEUCombinationScore* r = new BLEUCBLEUCombinationScore;
   r->bleu = SentenceScorer::CreateScoreFromString(IBM_BLEU, in.substr(1, bss));
   r->cbleu = SentenceScorer::CreateScoreFromString(CBLEU, in.substr(1 + bss));
diff --git a/mteval/ns.cc b/mteval/ns.cc
index 1d37c43..a60dba3 100644
--- a/mteval/ns.cc
+++ b/mteval/ns.cc
@@ -319,6 +319,7 @@ SufficientStats::SufficientStats(const string& encoded) {
 
 void SufficientStats::Encode(string* out) const {
   ostringstream os;
+  os.precision(9);  // enough to recover any float
   if (id_.size() > 0)
     os << id_;
   else
diff --git a/mteval/scorer.cc b/mteval/scorer.cc
index 5eb9420..3502266 100644
--- a/mteval/scorer.cc
+++ b/mteval/scorer.cc
@@ -579,6 +579,7 @@ ScoreP BLEUScore::GetOne() const {
 
 void BLEUScore::Encode(string* out) const {
   ostringstream os;
+  os.precision(9);  // enough to recover any float
   const int n = correct_ngram_hit_counts.size();
   os << n << ' ' << ref_len << ' ' << hyp_len;
   for (int i = 0; i < n; ++i)
-- 
2.43.0


From 0dd28cdf340d7102b37121606de9404c12813310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 026/123] fix: BLEU of empty output was not a number

---
 mteval/ns.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mteval/ns.cc b/mteval/ns.cc
index a60dba3..efa9c98 100644
--- a/mteval/ns.cc
+++ b/mteval/ns.cc
@@ -216,8 +216,10 @@ struct BleuMetric : public EvaluationMetric {
         ++count;
       }
     }
-    log_bleu /= count;
-    log_bleu_adj /= count;
+    if (count) {
+      log_bleu /= count;
+      log_bleu_adj /= count;
+    }
     float lbp = 0.0;
     const float& hyp_len = stats.fields[2*N];
     const float& ref_len = stats.fields[2*N + 1];
-- 
2.43.0


From cae3ca73c37827485cbcfbb4b632f5e997aefc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 027/123] fix: TER crashed on sentences of more than 1023 words

---
 mteval/ns_ter_impl.h | 38 ++++++--------------------------------
 mteval/ter.cc        | 38 ++++++--------------------------------
 2 files changed, 12 insertions(+), 64 deletions(-)

diff --git a/mteval/ns_ter_impl.h b/mteval/ns_ter_impl.h
index 9a93b0b..366716f 100644
--- a/mteval/ns_ter_impl.h
+++ b/mteval/ns_ter_impl.h
@@ -11,38 +11,12 @@ typedef int WordID;
 namespace NewScorer {
 
 struct Shift {
-  unsigned int d_;
-  Shift() : d_() {}
-  Shift(int b, int e, int m) : d_() {
-    begin(b);
-    end(e);
-    moveto(m);
-  }
-  inline int begin() const {
-    return d_ & 0x3ff;
-  }
-  inline int end() const {
-    return (d_ >> 10) & 0x3ff;
-  }
-  inline int moveto() const {
-    int m = (d_ >> 20) & 0x7ff;
-    if (m > 1024) { m -= 1024; m *= -1; }
-    return m;
-  }
-  inline void begin(int b) {
-    d_ &= 0xfffffc00u;
-    d_ |= (b & 0x3ff);
-  }
-  inline void end(int e) {
-    d_ &= 0xfff003ffu;
-    d_ |= (e & 0x3ff) << 10;
-  }
-  inline void moveto(int m) {
-    bool neg = (m < 0);
-    if (neg) { m *= -1; m += 1024; }
-    d_ &= 0xfffff;
-    d_ |= (m & 0x7ff) << 20;
-  }
+  int begin_, end_, moveto_;
+  Shift() : begin_(), end_(), moveto_() {}
+  Shift(int b, int e, int m) : begin_(b), end_(e), moveto_(m) {}
+  inline int begin() const { return begin_; }
+  inline int end() const { return end_; }
+  inline int moveto() const { return moveto_; }
 };
 
 class TERScorerImpl {
diff --git a/mteval/ter.cc b/mteval/ter.cc
index b49e07c..59f526f 100644
--- a/mteval/ter.cc
+++ b/mteval/ter.cc
@@ -37,38 +37,12 @@ static const int MAX_SHIFT_SIZE = 10;
 static const int MAX_SHIFT_DIST = 50;
 
 struct Shift {
-  unsigned int d_;
-  Shift() : d_() {}
-  Shift(int b, int e, int m) : d_() {
-    begin(b);
-    end(e);
-    moveto(m);
-  }
-  inline int begin() const {
-    return d_ & 0x3ff;
-  }
-  inline int end() const {
-    return (d_ >> 10) & 0x3ff;
-  }
-  inline int moveto() const {
-    int m = (d_ >> 20) & 0x7ff;
-    if (m > 1024) { m -= 1024; m *= -1; }
-    return m;
-  }
-  inline void begin(int b) {
-    d_ &= 0xfffffc00u;
-    d_ |= (b & 0x3ff);
-  }
-  inline void end(int e) {
-    d_ &= 0xfff003ffu;
-    d_ |= (e & 0x3ff) << 10;
-  }
-  inline void moveto(int m) {
-    bool neg = (m < 0);
-    if (neg) { m *= -1; m += 1024; }
-    d_ &= 0xfffff;
-    d_ |= (m & 0x7ff) << 20;
-  }
+  int begin_, end_, moveto_;
+  Shift() : begin_(), end_(), moveto_() {}
+  Shift(int b, int e, int m) : begin_(b), end_(e), moveto_(m) {}
+  inline int begin() const { return begin_; }
+  inline int end() const { return end_; }
+  inline int moveto() const { return moveto_; }
 };
 
 class TERScorerImpl {
-- 
2.43.0


From 938e416fc3c27ae0cdb0141fd96d05f1f27ab423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 028/123] fix: mbr_kbest maximized the expected WER or CER

---
 mteval/mbr_kbest.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mteval/mbr_kbest.cc b/mteval/mbr_kbest.cc
index eb36e00..7e5db35 100644
--- a/mteval/mbr_kbest.cc
+++ b/mteval/mbr_kbest.cc
@@ -108,7 +108,7 @@ int main(int argc, char** argv) {
   const string smetric = conf["evaluation_metric"].as<string>();
   EvaluationMetric* metric = EvaluationMetric::Instance(smetric);
 
-  const bool is_loss = (UppercaseString(smetric) == "TER");
+  const bool is_loss = metric->IsErrorMetric();
   const bool output_list = conf.count("output_list") > 0;
   vector<string> file;
   if (conf.count("input") == 0)
-- 
2.43.0


From 912e21916d2986ba49a1e987c4ed53912eef3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 029/123] fix: mbr_kbest lost empty first translations and
 printed the wrong sentence id

---
 mteval/mbr_kbest.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/mteval/mbr_kbest.cc b/mteval/mbr_kbest.cc
index 7e5db35..6784895 100644
--- a/mteval/mbr_kbest.cc
+++ b/mteval/mbr_kbest.cc
@@ -56,21 +56,23 @@ bool ReadKBestList(const vector<double>& mbr_scale,
                    const vector<ReadFile*>& rfs,
                    string* sent_id,
                    vector<pair<vector<WordID>, prob_t> >* list) {
-  static string cache_id;
+  static vector<string> cache_id(rfs.size());
+  static vector<bool> cached(rfs.size(), false);
   pair<vector<WordID>, prob_t> tmp_pair;
   static vector<pair<vector<WordID>, prob_t> > cache_pair(rfs.size());
   list->clear();
   string cur_id;
-  if (cache_pair[0].first.size() > 0) {
-    for (unsigned i = 0; i < cache_pair.size(); ++i)
-      list->push_back(cache_pair[i]);
-    cur_id = cache_id;
-    cache_pair.clear();
-    cache_pair.resize(rfs.size());
+  for (unsigned i = 0; i < cache_pair.size(); ++i) {
+    if (!cached[i] || (!cur_id.empty() && cur_id != cache_id[i])) continue;
+    *sent_id = cur_id = cache_id[i];
+    list->push_back(cache_pair[i]);
+    cache_pair[i].first.clear();
+    cached[i] = false;
   }
   string line;
   string tstr;
   for (unsigned fi = 0; fi < rfs.size(); ++fi) {
+    if (cached[fi]) continue;  // this file has nothing more for this sentence
     istream& in = *rfs[fi]->stream();
     while(getline(in, line)) {
       size_t p1 = line.find(" ||| ");
@@ -78,18 +80,21 @@ bool ReadKBestList(const vector<double>& mbr_scale,
       size_t p2 = line.find(" ||| ", p1 + 4);
       if (p2 == string::npos) { cerr << "Bad format: " << line << endl; abort(); }
       size_t p3 = line.rfind(" ||| ");
-      cache_id = line.substr(0, p1);
+      const string line_id = line.substr(0, p1);
       tstr = line.substr(p1 + 5, p2 - p1 - 5);
       double val = strtod(line.substr(p3 + 5).c_str(), NULL) * mbr_scale[fi] + mbr_offset[fi];
       TD::ConvertSentence(tstr, &tmp_pair.first);
       tmp_pair.second.logeq(val);
-      if (cur_id.empty()) cur_id = cache_id;
-      if (cur_id == cache_id) {
+      if (cur_id.empty()) cur_id = line_id;
+      if (cur_id == line_id) {
         list->push_back(tmp_pair);
         *sent_id = cur_id;
         tmp_pair.first.clear();
       } else {
         swap(cache_pair[fi], tmp_pair);
+        tmp_pair.first.clear();
+        cache_id[fi] = line_id;
+        cached[fi] = true;
         break;
       }
     }
-- 
2.43.0


From 714466166b3685aa310d5d925bda8bf42641d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 030/123] fix: base64 encoding lost half of the last byte when
 two were left

---
 utils/b64tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/b64tools.cc b/utils/b64tools.cc
index 78c1cb4..e8b3d6d 100644
--- a/utils/b64tools.cc
+++ b/utils/b64tools.cc
@@ -13,7 +13,7 @@ static void encodeblock(const unsigned char* in, ostream* os, int len) {
   // cerr << len << endl;
   out[0] = cb64[ in[0] >> 2 ];
   out[1] = cb64[ ((in[0] & 0x03) << 4) | (len > 1 ? ((in[1] & 0xf0) >> 4) : static_cast<unsigned char>(0))];
-  out[2] = (len > 2 ? cb64[ ((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6) ] : '=');
+  out[2] = (len > 1 ? cb64[ ((in[1] & 0x0f) << 2) | (len > 2 ? ((in[2] & 0xc0) >> 6) : static_cast<unsigned char>(0)) ] : '=');
   out[3] = (len > 2 ? cb64[ in[2] & 0x3f ] : '=');
   os->write(out, 4);
 }
-- 
2.43.0


From b500ce5c3e527716515d530619e8259a81596b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 031/123] fix: B64::Decode failed on feature names longer than
 127 bytes

---
 utils/sparse_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_vector.cc b/utils/sparse_vector.cc
index 00e7bd6..9e957fa 100644
--- a/utils/sparse_vector.cc
+++ b/utils/sparse_vector.cc
@@ -71,7 +71,7 @@ bool Decode(double* objective, SparseVector<double>* v, const char* in, size_t s
   int fc = 0;
   while(fc < num_feats && cur < decoded_size) {
     ++fc;
-    const int fname_len = data[cur++];
+    const int fname_len = static_cast<unsigned char>(data[cur++]);
     assert(fname_len > 0);
     assert(fname_len < 256);
     string fname(fname_len, '\0');
-- 
2.43.0


From f01c42c651fd5490fefe9376ab0c8ca6c5b90e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 032/123] fix: erasing an absent key from a sparse vector
 removed another one

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 0697fc4..16cbda6 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -204,9 +204,10 @@ class FastSparseVector {
             data_.local[j-1].first() = data_.local[j].first();
             data_.local[j-1].second() = data_.local[j].second();
           }
+          --local_size_;
+          return;
         }
       }
-      --local_size_;
     }
   }
   const FastSparseVector<T>& operator=(const FastSparseVector<T>& other) {
-- 
2.43.0


From e883e39534aaddc05624c3241f3f631576cf82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 033/123] fix: sparse vectors with an explicit zero could equal
 different vectors

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 16cbda6..4d021e2 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -403,7 +403,8 @@ class FastSparseVector {
   bool operator==(const FastSparseVector<T>& other) const {
     if (other.size() != size()) return false;
     for (const_iterator it = begin(), e = end(); it != e; ++it) {
-      if (other.value(it->first) != it->second) return false;
+      const const_iterator o = other.find(it->first);
+      if (o == other.end() || o->second != it->second) return false;
     }
     return true;
   }
-- 
2.43.0


From 39c5659538d7062d81e0acf02f8918b006673b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 034/123] fix: the reserved feature 0 was archived unless it
 came first

---
 utils/fast_sparse_vector.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 4d021e2..3ec5229 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -478,12 +478,11 @@ class FastSparseVector {
     (void) version;
     int eff_size = size();
     const_iterator it = this->begin();
-    if (eff_size > 0) {
-      // 0 index is reserved as empty
-      if (it->first == 0) { ++it; --eff_size; }
-    }
+    // 0 index is reserved as empty
+    if (this->find(0) != this->end()) --eff_size;
     ar & eff_size;
     while (it != this->end()) {
+      if (it->first == 0) { ++it; continue; }
       const std::pair<std::string, T> wire_pair(FD::Convert(it->first), it->second);
       ar & wire_pair;
       ++it;
-- 
2.43.0


From 4eede11020acd35f9d7e0b4b1bd9f06a852d1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 035/123] fix: arithmetic assignment of Array2D returned
 nothing

---
 utils/array2d.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/array2d.h b/utils/array2d.h
index 1a8e415..8878b11 100644
--- a/utils/array2d.h
+++ b/utils/array2d.h
@@ -58,16 +58,20 @@ class Array2D {
   const Array2D<T>& operator*=(const T& x) {
     std::transform(data_.begin(), data_.end(), data_.begin(),
         std::bind2nd(std::multiplies<T>(), x));
+    return *this;
   }
   const Array2D<T>& operator/=(const T& x) {
     std::transform(data_.begin(), data_.end(), data_.begin(),
         std::bind2nd(std::divides<T>(), x));
+    return *this;
   }
   const Array2D<T>& operator+=(const Array2D<T>& m) {
     std::transform(m.data_.begin(), m.data_.end(), data_.begin(), data_.begin(), std::plus<T>());
+    return *this;
   }
   const Array2D<T>& operator-=(const Array2D<T>& m) {
     std::transform(m.data_.begin(), m.data_.end(), data_.begin(), data_.begin(), std::minus<T>());
+    return *this;
   }
 
  private:
-- 
2.43.0


From 9c57fa65cec93ec2ccf51d2130b6af85a209a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 036/123] fix: ValueArray arithmetic touched an element past
 the end

---
 utils/value_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/value_array.h b/utils/value_array.h
index e59349b..e16ba64 100644
--- a/utils/value_array.h
+++ b/utils/value_array.h
@@ -222,7 +222,7 @@ public:
   }
 
 #undef VALUE_ARRAY_OPEQ
-#define VALUE_ARRAY_OPEQ(op) template <class T2,class A2> Self & operator op (ValueArray<T2,A2> const& o) { assert(sz==o.sz); for (int i=0,e=sz;i<=e;++i) array[i] op o.array[i]; return *this; }
+#define VALUE_ARRAY_OPEQ(op) template <class T2,class A2> Self & operator op (ValueArray<T2,A2> const& o) { assert(sz==o.sz); for (int i=0,e=sz;i<e;++i) array[i] op o.array[i]; return *this; }
 #if VALUE_ARRAY_ADD
   VALUE_ARRAY_OPEQ(+=)
   VALUE_ARRAY_OPEQ(-=)
-- 
2.43.0


From 50a7daa00de640211e9890030101fc337e00c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 037/123] fix: byte arrays of different sizes were not ordered

---
 utils/value_array.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/utils/value_array.h b/utils/value_array.h
index e16ba64..df77f34 100644
--- a/utils/value_array.h
+++ b/utils/value_array.h
@@ -379,9 +379,8 @@ bool operator< (ValueArray<T,A> const& v1, ValueArray<T,A> const& v2)
 template <class A>
 bool operator<(ValueArray<unsigned char,A> const& v1, ValueArray<unsigned char,A> const& v2)
 {
-  typename ValueArray<char,A>::size_type sz=v1.size();
-  return sz == v2.size() &&
-    std::memcmp(v1.begin(),v2.begin(),sizeof(char)*sz)<0;
+  const int c = std::memcmp(v1.begin(),v2.begin(),std::min(v1.size(),v2.size()));
+  return c < 0 || (c == 0 && v1.size() < v2.size());
 }
 
 
-- 
2.43.0


From 80401dea92f0b66bbd73e3fe01116af5d0fe43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 038/123] fix: subtracting Array2D negated the result

---
 utils/array2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/array2d.h b/utils/array2d.h
index 8878b11..4969f3c 100644
--- a/utils/array2d.h
+++ b/utils/array2d.h
@@ -70,7 +70,7 @@ class Array2D {
     return *this;
   }
   const Array2D<T>& operator-=(const Array2D<T>& m) {
-    std::transform(m.data_.begin(), m.data_.end(), data_.begin(), data_.begin(), std::minus<T>());
+    std::transform(data_.begin(), data_.end(), m.data_.begin(), data_.begin(), std::minus<T>());
     return *this;
   }
 
-- 
2.43.0


From 0b777a9ad395f91d99d2814c53260470cff3c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 039/123] fix: LogVal ordered negative values the wrong way
 round

---
 utils/logval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/logval.h b/utils/logval.h
index 0c9ee98..d06a2fc 100644
--- a/utils/logval.h
+++ b/utils/logval.h
@@ -118,10 +118,10 @@ class LogVal {
 
   //remember, s_ means negative.
   inline bool lt(Self const& o) const {
-    return s_==o.s_ ? v_ < o.v_ : s_ > o.s_;
+    return s_==o.s_ ? (s_ ? o.v_ < v_ : v_ < o.v_) : s_ > o.s_;
   }
   inline bool gt(Self const& o) const {
-    return s_==o.s_ ? o.v_ < v_ : s_ < o.s_;
+    return s_==o.s_ ? (s_ ? v_ < o.v_ : o.v_ < v_) : s_ < o.s_;
   }
 
   Self operator-() const {
@@ -219,7 +219,7 @@ bool operator!=(const LogVal<T>& lhs, const LogVal<T>& rhs) {
 template <class T>
 bool operator<(const LogVal<T>& lhs, const LogVal<T>& rhs) {
   if (lhs.s_ == rhs.s_) {
-    return (lhs.v_ < rhs.v_);
+    return lhs.s_ ? (rhs.v_ < lhs.v_) : (lhs.v_ < rhs.v_);
   } else {
     return lhs.s_ > rhs.s_;
   }
-- 
2.43.0


From 7b0c3226ef5e9f654778c8976d4de4cc8891a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 040/123] fix: a LogVal zero with negative sign differed from
 zero

---
 utils/logval.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils/logval.h b/utils/logval.h
index d06a2fc..91a246d 100644
--- a/utils/logval.h
+++ b/utils/logval.h
@@ -46,7 +46,7 @@ class LogVal {
 
   std::size_t hash_impl() const {
     using namespace boost;
-    return hash_value(v_)+s_;
+    return hash_value(v_)+(s_ && !is_0());
   }
 
   // just like std::signbit, negative means true.  weird, i know
@@ -118,10 +118,10 @@ class LogVal {
 
   //remember, s_ means negative.
   inline bool lt(Self const& o) const {
-    return s_==o.s_ ? (s_ ? o.v_ < v_ : v_ < o.v_) : s_ > o.s_;
+    return s_==o.s_ ? (s_ ? o.v_ < v_ : v_ < o.v_) : s_ > o.s_ && !(is_0() && o.is_0());
   }
   inline bool gt(Self const& o) const {
-    return s_==o.s_ ? (s_ ? v_ < o.v_ : o.v_ < v_) : s_ < o.s_;
+    return s_==o.s_ ? (s_ ? v_ < o.v_ : o.v_ < v_) : s_ < o.s_ && !(is_0() && o.is_0());
   }
 
   Self operator-() const {
@@ -187,7 +187,7 @@ LogVal<T> operator-(LogVal<T> o1, const LogVal<T>& o2) {
 template<class T>
 T log(const LogVal<T>& o) {
 #ifdef LOGVAL_CHECK_NEG
-  if (o.s_) return log(-1.0);
+  if (o.s_ && !o.is_0()) return log(-1.0);
 #endif
   return o.v_;
 }
@@ -208,7 +208,7 @@ LogVal<T> pow(const LogVal<T>& b, const T& e) {
 
 template <class T>
 bool operator==(const LogVal<T>& lhs, const LogVal<T>& rhs) {
-  return (lhs.v_ == rhs.v_) && (lhs.s_ == rhs.s_);
+  return (lhs.v_ == rhs.v_) && (lhs.s_ == rhs.s_ || lhs.is_0());
 }
 
 template <class T>
@@ -221,7 +221,7 @@ bool operator<(const LogVal<T>& lhs, const LogVal<T>& rhs) {
   if (lhs.s_ == rhs.s_) {
     return lhs.s_ ? (rhs.v_ < lhs.v_) : (lhs.v_ < rhs.v_);
   } else {
-    return lhs.s_ > rhs.s_;
+    return lhs.s_ > rhs.s_ && !(lhs.is_0() && rhs.is_0());
   }
 }
 
-- 
2.43.0


From fde1fe12f9522b83e018629a13a2d16fcebfcdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 041/123] fix: SmallVector of anything but int could not shrink
 by pop_back, erase or compact

---
 utils/small_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/small_vector.h b/utils/small_vector.h
index f16bc89..86ca9b7 100644
--- a/utils/small_vector.h
+++ b/utils/small_vector.h
@@ -171,7 +171,7 @@ private:
   }
   inline void ptr_to_small() {
     assert(size_<=SV_MAX);
-    int *tmp=data_.ptr;
+    T *tmp=data_.ptr;
     for (unsigned i=0;i<size_;++i)
       data_.vals[i]=tmp[i];
     delete[] tmp;
-- 
2.43.0


From f79d365650bc3a18bd4bbe1d0edcf3de289815a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 042/123] fix: Weights::InitFromFile reads short and empty
 weights files, and all of standard input

---
 utils/weights.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 7d5d96d..e759f60 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -19,14 +19,14 @@ void Weights::InitFromFile(const string& filename,
   assert(in);
   
   bool read_text = true;
-  if (1) {
+  if (!in_file.is_std()) {  // standard input can only be read once
     ReadFile hdrrf(filename);
     istream& hi = *hdrrf.stream();
     assert(hi);
     char buf[10];
     hi.read(buf, 5);
-    assert(hi.good());
-    if (strncmp(buf, "_PHWf", 5) == 0) {
+    // a text file can be shorter than the binary header (or empty)
+    if (hi.gcount() == 5 && strncmp(buf, "_PHWf", 5) == 0) {
       read_text = false;
     }
   }
-- 
2.43.0


From 9503daa4eb88b657d06cfb578a7d20232bd7eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 043/123] fix: Weights::GetString returns an empty string when
 there is no non-zero weight

---
 utils/weights.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index e759f60..58f4e29 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -171,7 +171,8 @@ string Weights::GetString(const vector<weight_t>& w,
         }
         os << ' ' << FD::Convert(i) << '=' << val;
     }
-    return os.str().substr(1);
+    const string res = os.str();
+    return res.empty() ? res : res.substr(1);
 }
 
 void Weights::UpdateFromString(string& w_string,
-- 
2.43.0


From 49fb14c8d69ced4fee43aca8ef295268ea6c90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 044/123] fix: UTF8Len makes progress on bytes that do not
 start a character

---
 utils/stringlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stringlib.h b/utils/stringlib.h
index aadec93..c60782e 100644
--- a/utils/stringlib.h
+++ b/utils/stringlib.h
@@ -299,7 +299,7 @@ inline unsigned int UTF8Len(unsigned char x) {
   else if ((x >> 3) == 0x1e) return 4;
   else if ((x >> 2) == 0x3e) return 5;
   else if ((x >> 1) == 0x7e) return 6;
-  else return 0;
+  else return 1;  // not the first byte of a character: step over it
 }
 
 inline unsigned int UTF8StringLen(const std::string& x) {
-- 
2.43.0


From 513e46e5dd48695d74dfbc1c58778c9aefaf8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 045/123] fix: ParseTranslatorInput accepts an empty source or
 reference field

---
 utils/stringlib.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/stringlib.cc b/utils/stringlib.cc
index 1a15298..9743885 100644
--- a/utils/stringlib.cc
+++ b/utils/stringlib.cc
@@ -22,8 +22,8 @@ void ParseTranslatorInput(const string& line, string* input, string* ref) {
   size_t pos = line.find("|||", hint);
   if (pos == string::npos) { *input = line; return; }
   ref->clear();
-  *input = line.substr(0, pos - 1);
-  string rline = line.substr(pos + 4);
+  *input = line.substr(0, pos ? pos - 1 : 0);
+  string rline = pos + 4 < line.size() ? line.substr(pos + 4) : string();
   if (rline.size() > 0) {
     assert(ref);
     *ref = rline;
-- 
2.43.0


From 6fad89c63da6f9cd35abfce6664865234eb6d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 046/123] fix: keep the attribute that follows an unquoted
 attribute of a <seg> tag

---
 utils/stringlib.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/stringlib.cc b/utils/stringlib.cc
index 9743885..89434cf 100644
--- a/utils/stringlib.cc
+++ b/utils/stringlib.cc
@@ -82,6 +82,7 @@ void ProcessAndStripSGML(string* pline, map<string, string>* out) {
         } else {
           seg = val.substr(close+1);
           val = val.substr(0, close);
+          i = 0;
         }
       }
       label = Trim(label);
-- 
2.43.0


From da9dc6a325af8e2282cbdef092c194ed84568ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 047/123] fix: keep spaces around = inside quoted attributes of
 a <seg> tag

---
 utils/stringlib.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/stringlib.cc b/utils/stringlib.cc
index 89434cf..82079ef 100644
--- a/utils/stringlib.cc
+++ b/utils/stringlib.cc
@@ -45,7 +45,10 @@ void ProcessAndStripSGML(string* pline, map<string, string>* out) {
   size_t end = lline.find("</seg>");
   string seg = Trim(lline.substr(4, close-4));
   string text = line.substr(close+1, end - close - 1);
+  bool quoted = false;
   for (size_t i = 1; i < seg.size(); i++) {
+    if (seg[i] == '"') quoted = !quoted;
+    if (quoted) continue;  // spaces in a quoted value belong to the value
     if (seg[i] == '=' && seg[i-1] == ' ') {
       string less = seg.substr(0, i-1) + seg.substr(i);
       seg = less; i = 0; continue;
-- 
2.43.0


From 717fb3c48c7233938435afdead8787aee7bf8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 048/123] fix: append_itoa writes signed numbers

---
 utils/utoa.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/utoa.h b/utils/utoa.h
index 8b54987..786e5c8 100644
--- a/utils/utoa.h
+++ b/utils/utoa.h
@@ -192,7 +192,7 @@ template <class Int>
 inline char* append_utoa(char *to,typename signed_for_int<Int>::unsigned_t n) {
   char buf[signed_for_int<Int>::toa_bufsize];
   char *end=buf+signed_for_int<Int>::toa_bufsize;
-  char *p=itoa(end,n);
+  char *p=utoa(end,n);
   int ns=end-p;
   std::memcpy(to,p,ns);
   to+=ns;
@@ -205,7 +205,7 @@ template <class Int>
 inline char* append_itoa(char *to,typename signed_for_int<Int>::signed_t n) {
   char buf[signed_for_int<Int>::toa_bufsize];
   char *end=buf+signed_for_int<Int>::toa_bufsize;
-  char *p=utoa(end,n);
+  char *p=itoa(end,n);
   int ns=end-p;
   std::memcpy(to,p,ns);
   to+=ns;
-- 
2.43.0


From 9a72c63c0924711a13304e5ca0283366fe217764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 049/123] fix: ReadAll returns the whole file, dropping only a
 final newline

---
 utils/filelib.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/filelib.h b/utils/filelib.h
index 90620d0..30d42a6 100644
--- a/utils/filelib.h
+++ b/utils/filelib.h
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <string>
 #include <iostream>
+#include <iterator>
 #include <cstdlib>
 #include <boost/shared_ptr.hpp>
 #include <stdexcept>
@@ -76,8 +77,8 @@ class ReadFile : public BaseFile<std::istream> {
     }
   }
   void ReadAll(std::string& s) {
-    getline(*stream(), s, (char) EOF);
-    if (s.size() > 0) s.resize(s.size()-1);
+    s.assign(std::istreambuf_iterator<char>(*stream()), std::istreambuf_iterator<char>());
+    if (s.size() > 0 && s[s.size()-1] == '\n') s.resize(s.size()-1);
   }
 };
 
-- 
2.43.0


From 8fce494f5a20b455df77f6fc79a19d9fbac5b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 050/123] fix: read the last line of a weights file without
 final newline only once

---
 utils/weights.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 58f4e29..04b0645 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -36,8 +36,7 @@ void Weights::InitFromFile(const string& filename,
     bool fl = false;
     string buf;
     double val = 0;
-    while (in) {
-      getline(in, buf);
+    while (getline(in, buf)) {
       if (buf.size() == 0) continue;
       if (buf[0] == '#') continue;
       if (buf[0] == ' ') {
-- 
2.43.0


From 223e2a3eb9cdb1c038c3ffcf3a98aa669cf1d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 051/123] fix: count entries inserted into AutoProbing, so that
 it grows before it is full

---
 klm/util/probing_hash_table.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/util/probing_hash_table.hh b/klm/util/probing_hash_table.hh
index ea228dd..c742aa0 100644
--- a/klm/util/probing_hash_table.hh
+++ b/klm/util/probing_hash_table.hh
@@ -278,6 +278,7 @@ template <class EntryT, class HashT, class EqualT = std::equal_to<typename Entry
     // Assumes that the key is unique.  Multiple insertions won't cause a failure, just inconsistent lookup.
     template <class T> MutableIterator Insert(const T &t) {
       DoubleIfNeeded();
+      ++backend_.entries_;
       return backend_.UncheckedInsert(t);
     }
 
-- 
2.43.0


From d4d6f96aaf8f24912044c9d1113d69f34d258eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 052/123] fix: AutoProbing of initial size zero doubled its
 memory on every insertion

---
 klm/util/probing_hash_table.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klm/util/probing_hash_table.hh b/klm/util/probing_hash_table.hh
index c742aa0..d09559d 100644
--- a/klm/util/probing_hash_table.hh
+++ b/klm/util/probing_hash_table.hh
@@ -270,8 +270,8 @@ template <class EntryT, class HashT, class EqualT = std::equal_to<typename Entry
     typedef EqualT Equal;
 
     AutoProbing(std::size_t initial_size = 10, const Key &invalid = Key(), const Hash &hash_func = Hash(), const Equal &equal_func = Equal()) :
-      allocated_(Backend::Size(initial_size, 1.5)), mem_(util::MallocOrThrow(allocated_)), backend_(mem_.get(), allocated_, invalid, hash_func, equal_func) {
-      threshold_ = initial_size * 1.2;
+      allocated_(Backend::Size(initial_size ? initial_size : 1, 1.5)), mem_(util::MallocOrThrow(allocated_)), backend_(mem_.get(), allocated_, invalid, hash_func, equal_func) {
+      threshold_ = initial_size ? initial_size * 1.2 : 1;
       Clear();
     }
 
-- 
2.43.0


From 79eb1ec2d3d79333cb4821650b49731bb953f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 053/123] fix: FakeOFStream aborted on a string exactly as long
 as its buffer

---
 klm/util/fake_ofstream.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/util/fake_ofstream.hh b/klm/util/fake_ofstream.hh
index eefb1ed..f31c2b0 100644
--- a/klm/util/fake_ofstream.hh
+++ b/klm/util/fake_ofstream.hh
@@ -51,7 +51,7 @@ class FakeOFStream {
     }
 
     FakeOFStream &operator<<(StringPiece str) {
-      if (str.size() > kOutBuf) {
+      if (str.size() >= kOutBuf) {
         Flush();
         util::WriteOrThrow(fd_, str.data(), str.size());
       } else {
-- 
2.43.0


From 86c5fe472c16245b0e54687155330911b87bdb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 054/123] fix: opening a gzip stream that cannot be opened
 dereferenced a null message instead of failing

---
 utils/gzstream.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/gzstream.cc b/utils/gzstream.cc
index dbfa2f5..588f9cb 100644
--- a/utils/gzstream.cc
+++ b/utils/gzstream.cc
@@ -62,7 +62,6 @@ gzstreambuf* gzstreambuf::open( const char* name, int open_mode) {
     while (fmodeptr<fmode+Nmode) // hopefully wil help valgrind
       *fmodeptr++ = '\0';
     file = gzopen( name, fmode);
-    if (!file) handle_gzerror();
     if (file == 0)
         return (gzstreambuf*)0;
     opened = 1;
-- 
2.43.0


From 02a3b04b18269c26f38906a8292c3e8cb75366dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 055/123] fix: a gzip stream that failed while closing read its
 freed state, or was closed twice

---
 utils/gzstream.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/utils/gzstream.cc b/utils/gzstream.cc
index 588f9cb..440b110 100644
--- a/utils/gzstream.cc
+++ b/utils/gzstream.cc
@@ -28,6 +28,7 @@
 
 #include "gzstream.h"
 #include <iostream>
+#include <cerrno>
 #include <cstring>  // for memcpy
 #include <stdexcept>
 
@@ -70,12 +71,19 @@ gzstreambuf* gzstreambuf::open( const char* name, int open_mode) {
 
 gzstreambuf * gzstreambuf::close() {
     if ( is_open()) {
-        sync();
         opened = 0;
-        if ( gzclose( file) == Z_OK)
+        try {
+            sync();
+        } catch (...) {
+            gzclose( file);
+            throw;
+        }
+        const int result = gzclose( file);
+        if ( result == Z_OK)
             return this;
-        else
-            handle_gzerror();
+        // file is gone, so gzerror can no longer be asked
+        throw std::runtime_error(std::string("gzstreambuf error: ")
+            + ( result == Z_ERRNO ? std::strerror( errno) : zError( result)));
     }
     return (gzstreambuf*)0;
 }
-- 
2.43.0


From 9a7f308809e70feb1a8bbf14ce7ab0c6d16e052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 056/123] fix: a gzip stream that could not be opened looked
 good, because constructing the stream reset its state

---
 utils/gzstream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/gzstream.h b/utils/gzstream.h
index a7effd9..a6e2c10 100644
--- a/utils/gzstream.h
+++ b/utils/gzstream.h
@@ -99,7 +99,7 @@ class igzstream : public gzstreambase, public std::istream {
 public:
     igzstream() : std::istream( &buf) {}
     igzstream( const char* name, int open_mode = std::ios::in)
-        : gzstreambase( name, std::ios::in | open_mode), std::istream( &buf) {}
+        : std::istream( &buf) { open( name, std::ios::in | open_mode); }
     gzstreambuf* rdbuf() { return gzstreambase::rdbuf(); }
     void open( const char* name, int open_mode = std::ios::in) {
         gzstreambase::open( name, open_mode);
@@ -110,7 +110,7 @@ class ogzstream : public gzstreambase, public std::ostream {
 public:
     ogzstream() : std::ostream( &buf) {}
     ogzstream( const char* name, int mode = std::ios::out)
-        : gzstreambase( name, mode), std::ostream( &buf) {}
+        : std::ostream( &buf) { open( name, mode); }
     gzstreambuf* rdbuf() { return gzstreambase::rdbuf(); }
     void open( const char* name, int open_mode = std::ios::out) {
         gzstreambase::open( name, open_mode);
-- 
2.43.0


From e6c6546bef57fb0dd480b4927d9484d4362cc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 057/123] fix: copying an empty file to a stream made that
 stream fail

---
 utils/filelib.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/filelib.h b/utils/filelib.h
index 30d42a6..d8ef179 100644
--- a/utils/filelib.h
+++ b/utils/filelib.h
@@ -109,7 +109,9 @@ class WriteFile : public BaseFile<std::ostream> {
 };
 
 inline void CopyFile(std::istream &in,std::ostream &out) {
-  out << in.rdbuf();
+  // inserting an empty buffer would make out fail
+  if (in.peek() != std::istream::traits_type::eof())
+    out << in.rdbuf();
 }
 
 inline void CopyFile(std::string const& inf,std::ostream &out) {
-- 
2.43.0


From 0ed202b166c42688fea81024867cf9d32ae58bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 058/123] fix: FilePiece::get reported the end of the file at
 the start of the last mapping

---
 klm/util/file_piece.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klm/util/file_piece.hh b/klm/util/file_piece.hh
index 5495ddc..407dd3c 100644
--- a/klm/util/file_piece.hh
+++ b/klm/util/file_piece.hh
@@ -45,7 +45,8 @@ class FilePiece {
     char get() {
       if (position_ == position_end_) {
         Shift();
-        if (at_end_) throw EndOfFileException();
+        // at_end_ can also mean that Shift delivered the last data.
+        if (position_ == position_end_) throw EndOfFileException();
       }
       return *(position_++);
     }
-- 
2.43.0


From 4e0123e8303e738796a94fb953babbbe02dab099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 059/123] fix: FilePiece::Offset lost the bytes dropped from
 the buffer, or before a failed mapping

---
 klm/util/file_piece.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klm/util/file_piece.cc b/klm/util/file_piece.cc
index 4aaa250..926df33 100644
--- a/klm/util/file_piece.cc
+++ b/klm/util/file_piece.cc
@@ -252,6 +252,7 @@ void FilePiece::MMapShift(uint64_t desired_begin) {
     // The mmap was scheduled to end the file, but now we're going to read it.  
     at_end_ = false;
     TransitionToRead();
+    mapped_offset_ = desired_begin;
     return;
   }
   mapped_offset_ = mapped_offset;
@@ -302,6 +303,7 @@ void FilePiece::ReadShift() {
       position_end_ = position_ + valid_length;
     } else {
       std::size_t moving = position_end_ - position_;
+      mapped_offset_ += position_ - data_.begin();
       memmove(data_.get(), position_, moving);
       position_ = data_.begin();
       position_end_ = position_ + moving;
-- 
2.43.0


From 539d95fce99501ba271a8365df14042b36de040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 060/123] fix: ReadCompressed counted bytes of a stream from an
 uninitialised value

---
 klm/util/read_compressed.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/util/read_compressed.cc b/klm/util/read_compressed.cc
index cee9804..d166a02 100644
--- a/klm/util/read_compressed.cc
+++ b/klm/util/read_compressed.cc
@@ -426,6 +426,7 @@ void ReadCompressed::Reset(int fd) {
 }
 
 void ReadCompressed::Reset(std::istream &in) {
+  raw_amount_ = 0;
   internal_.reset();
   internal_.reset(new IStreamReader(in));
 }
-- 
2.43.0


From 3dae83f479e77960707e1c407d4f4fe87b29ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 061/123] fix: reading a truncated bzip2 file looped forever

---
 klm/util/read_compressed.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/klm/util/read_compressed.cc b/klm/util/read_compressed.cc
index d166a02..5e440c5 100644
--- a/klm/util/read_compressed.cc
+++ b/klm/util/read_compressed.cc
@@ -209,7 +209,7 @@ class GZip {
 #ifdef HAVE_BZLIB
 class BZip {
   public:
-    BZip(const void *base, std::size_t amount) {
+    BZip(const void *base, std::size_t amount) : at_end_(false) {
       memset(&stream_, 0, sizeof(stream_));
       SetInput(base, amount);
       HandleError(BZ2_bzDecompressInit(&stream_, 0, 0));
@@ -225,9 +225,12 @@ class BZip {
     }
 
     bool Process() {
+      const char *before = stream_.next_out;
       int ret = BZ2_bzDecompress(&stream_);
       if (ret == BZ_STREAM_END) return false;
       HandleError(ret);
+      // bzip2 is happy to make no progress when there is no more input.
+      UTIL_THROW_IF(at_end_ && stream_.next_out == before, BZException, "bzip2 file ended unexpectedly");
       return true;
     }
 
@@ -239,6 +242,7 @@ class BZip {
     void SetInput(const void *base, std::size_t amount) {
       stream_.next_in = const_cast<char*>(static_cast<const char*>(base));
       stream_.avail_in = amount;
+      if (!amount) at_end_ = true;
     }
 
     const bz_stream &Stream() const { return stream_; }
@@ -264,6 +268,7 @@ class BZip {
     }
 
     bz_stream stream_;
+    bool at_end_;
 };
 #endif // HAVE_BZLIB
 
-- 
2.43.0


From efe958256b9626b6269486769064887dd9e79a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 062/123] fix: keep back-off messages for blanks after the last
 record of a trie order

Messages to pruned contexts that sort after the last record were dropped, so such a context got a state shorter than the one GetState builds.
---
 klm/lm/search_trie.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klm/lm/search_trie.cc b/klm/lm/search_trie.cc
index 7fc70f4..51262e8 100644
--- a/klm/lm/search_trie.cc
+++ b/klm/lm/search_trie.cc
@@ -126,6 +126,10 @@ class BackoffMessages {
             break;
         }
       }
+      // Messages past the last record are for blanks too.
+      for (; current_ != allocated_; current_ += entry_size_) {
+        for (const WordIndex *w = reinterpret_cast<const WordIndex *>(current_); w != reinterpret_cast<const WordIndex *>(current_) + order; ++w, ++extend_out) *extend_out = *w;
+      }
       // Now this is a list of blanks that extend right.
       entry_size_ = sizeof(WordIndex) * order;
       Resize(sizeof(WordIndex) * (extend_out - (const WordIndex*)backing_.get()));
-- 
2.43.0


From 70023d8047d350409d2e217cb0560a753da7a555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 063/123] fix: refuse one bit back-off quantisation of non-zero
 back-offs

Both values of one bit are reserved for zeros, so non-zero back-offs silently corrupted the entries around them.
---
 klm/lm/quantize.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/lm/quantize.cc b/klm/lm/quantize.cc
index 273ea39..c857c79 100644
--- a/klm/lm/quantize.cc
+++ b/klm/lm/quantize.cc
@@ -71,6 +71,7 @@ void SeparatelyQuantize::Train(uint8_t order, std::vector<float> &prob, std::vec
   TrainProb(order, prob);
 
   // Backoff
+  if (backoff_bits_ == 1 && !backoff.empty()) UTIL_THROW(ConfigException, "Both values of one bit backoff quantization are reserved, but the model has non-zero backoffs.  Use at least 2 bits.");
   float *centers = tables_[order - 2][1].Populate();
   *(centers++) = kNoExtensionBackoff;
   *(centers++) = kExtensionBackoff;
-- 
2.43.0


From aefa84fe6e97807cbbc653ad1cfe7c8627217bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 064/123] fix: give every word of a rest cost model a rest cost
 when <unk> is missing

The last word of the vocabulary was skipped, and reading the unigrams of lower order models wrote past the end of their array.
---
 klm/lm/search_hashed.cc | 2 +-
 klm/lm/value_build.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/klm/lm/search_hashed.cc b/klm/lm/search_hashed.cc
index 7e63e00..d07baa5 100644
--- a/klm/lm/search_hashed.cc
+++ b/klm/lm/search_hashed.cc
@@ -264,7 +264,7 @@ template <> void HashedSearch<RestValue>::DispatchBuild(util::FilePiece &f, cons
 }
 
 template <class Value> template <class Build> void HashedSearch<Value>::ApplyBuild(util::FilePiece &f, const std::vector<uint64_t> &counts, const ProbingVocabulary &vocab, PositiveProbWarn &warn, const Build &build) {
-  for (WordIndex i = 0; i < counts[0]; ++i) {
+  for (WordIndex i = 0; i < vocab.Bound(); ++i) {
     build.SetRest(&i, (unsigned int)1, unigram_.Raw()[i]);
   }
 
diff --git a/klm/lm/value_build.cc b/klm/lm/value_build.cc
index 3ec3dce..37498b9 100644
--- a/klm/lm/value_build.cc
+++ b/klm/lm/value_build.cc
@@ -20,7 +20,7 @@ template <class Model> LowerRestBuild<Model>::LowerRestBuild(const Config &confi
     ReadARPACounts(uni, number);
     UTIL_THROW_IF(number.size() != 1, FormatLoadException, "Expected the unigram model to have order 1, not " << number.size());
     ReadNGramHeader(uni, 1);
-    unigrams_.resize(number[0]);
+    unigrams_.resize(vocab.Bound());
     unigrams_[0] = config.unknown_missing_logprob;
     PositiveProbWarn warn;
     for (uint64_t i = 0; i < number[0]; ++i) {
-- 
2.43.0


From 39d2933834532993d895c65d7a8694258a5fb3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 065/123] fix: TTable::Increment grew the counts by the size of
 the wrong table

---
 word-aligner/ttables.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/ttables.h b/word-aligner/ttables.h
index b996422..4e5f5e9 100644
--- a/word-aligner/ttables.h
+++ b/word-aligner/ttables.h
@@ -31,7 +31,7 @@ class TTable {
     }
   }
   inline void Increment(const int& e, const int& f) {
-    if (e >= static_cast<int>(ttable.size())) counts.resize(e + 1);
+    if (e >= static_cast<int>(counts.size())) counts.resize(e + 1);
     counts[e][f] += 1.0;
   }
   inline void Increment(const int& e, const int& f, double x) {
-- 
2.43.0


From 8674b6c1f0adb454602b0e4b66295631b158428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 066/123] fix: translation tables counted the last line twice
 and took failed reads as values

---
 word-aligner/ttables.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/word-aligner/ttables.cc b/word-aligner/ttables.cc
index 64d54bd..c54d8e6 100644
--- a/word-aligner/ttables.cc
+++ b/word-aligner/ttables.cc
@@ -11,9 +11,7 @@ void TTable::DeserializeProbsFromText(std::istream* in) {
   string e;
   string f;
   double p;
-  while(*in) {
-    (*in) >> e >> f >> p;
-    if (e.empty()) break;
+  while((*in) >> e >> f >> p) {
     ++c;
     WordID ie = TD::Convert(e);
     if (ie >= static_cast<int>(ttable.size())) ttable.resize(ie + 1);
@@ -27,9 +25,7 @@ void TTable::DeserializeLogProbsFromText(std::istream* in) {
   string e;
   string f;
   double p;
-  while(*in) {
-    (*in) >> e >> f >> p;
-    if (e.empty()) break;
+  while((*in) >> e >> f >> p) {
     ++c;
     WordID ie = TD::Convert(e);
     if (ie >= static_cast<int>(ttable.size())) ttable.resize(ie + 1);
-- 
2.43.0


From 2a32b8822894d3a9d5d31c35e4dbbcd3cc0c677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 067/123] fix: ComputeDLogZ called ComputeZ with the sentence
 lengths swapped

---
 word-aligner/da.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/da.h b/word-aligner/da.h
index c979b64..94ccacc 100644
--- a/word-aligner/da.h
+++ b/word-aligner/da.h
@@ -41,7 +41,7 @@ struct DiagonalAlignment {
   }
 
   static double ComputeDLogZ(const unsigned i, const unsigned m, const unsigned n, const double alpha) {
-    const double z = ComputeZ(i, n, m, alpha);
+    const double z = ComputeZ(i, m, n, alpha);
     const double split = double(i) * n / m;
     const unsigned floor = split;
     const unsigned ceil = floor + 1;
-- 
2.43.0


From a6465e2e482e92559077a53799197f2347938f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 068/123] fix: a diagonal tension of 0 gave NaN

---
 word-aligner/da.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/word-aligner/da.h b/word-aligner/da.h
index 94ccacc..af2a741 100644
--- a/word-aligner/da.h
+++ b/word-aligner/da.h
@@ -26,6 +26,7 @@ struct DiagonalAlignment {
     assert(n > 0);
     assert(m >= i);
 #endif
+    if (alpha == 0.0) return n;  // uniform
     const double split = double(i) * n / m;
     const unsigned floor = split;
     unsigned ceil = floor + 1;
@@ -67,6 +68,7 @@ struct DiagonalAlignment {
 
  private:
   inline static double arithmetico_geometric_series(const double a_1, const double g_1, const double r, const double d, const unsigned n) {
+    if (r == 1.0) return g_1 * n * (a_1 + d * (n - 1) / 2.0);
     const double g_np1 = g_1 * pow(r, n);
     const double a_n = d * (n - 1) + a_1;
     const double x_1 = a_1 * g_1;
-- 
2.43.0


From 10858e90a78cb3831ca52c9eaa62e65e0c3c6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 069/123] fix: fast_align took the diagonal feature one
 position off

---
 word-aligner/fast_align.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 73b7239..154f7d7 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -202,7 +202,7 @@ int main(int argc, char** argv) {
           for (unsigned i = 1; i <= src.size(); ++i) {
             const double p = probs[i] / sum;
             s2t.Increment(src[i-1], f_j, p);
-            emp_feat += DiagonalAlignment::Feature(j, i, trg.size(), src.size()) * p;
+            emp_feat += DiagonalAlignment::Feature(j + 1, i, trg.size(), src.size()) * p;
           }
         }
         likelihood += log(sum);
-- 
2.43.0


From f5a75d57f18096423bd10649185a3c26adaaa272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 070/123] fix: fast_align --no_add_viterbi was ignored and
 writing parameters read out of bounds

---
 word-aligner/fast_align.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 154f7d7..ee2aaa9 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -190,8 +190,10 @@ int main(int argc, char** argv) {
                   cout << (max_index - 1) << '-' << j;
               }
             }
-            if (s2t_viterbi.size() <= static_cast<unsigned>(max_i)) s2t_viterbi.resize(max_i + 1);
-            s2t_viterbi[max_i][f_j] = 1.0;
+            if (add_viterbi) {
+              if (s2t_viterbi.size() <= static_cast<unsigned>(max_i)) s2t_viterbi.resize(max_i + 1);
+              s2t_viterbi[max_i][f_j] = 1.0;
+            }
           }
         } else {
           if (use_null) {
@@ -308,6 +310,7 @@ int main(int argc, char** argv) {
   }
 
   if (output_parameters) {
+    if (s2t_viterbi.size() < s2t.ttable.size()) s2t_viterbi.resize(s2t.ttable.size());
     WriteFile params_out(conf["output_parameters"].as<string>());
     for (unsigned eind = 1; eind < s2t.ttable.size(); ++eind) {
       const auto& cpd = s2t.ttable[eind];
-- 
2.43.0


From 60f6756d89a294c49c259a27da3e5ead9850ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 071/123] fix: fast_align wrote no parameters at beam threshold
 0

---
 word-aligner/fast_align.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index ee2aaa9..1359627 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -321,7 +321,7 @@ int main(int argc, char** argv) {
         if (fi.second > max_p) max_p = fi.second;
       const double threshold = max_p * BEAM_THRESHOLD;
       for (auto& fi : cpd) {
-        if (fi.second > threshold || (vit.find(fi.first) != vit.end())) {
+        if (fi.second > threshold || fi.second == max_p || (vit.find(fi.first) != vit.end())) {
           *params_out << esym << ' ' << TD::Convert(fi.first) << ' ' << log(fi.second) << endl;
         }
       } 
-- 
2.43.0


From cb96feda2f2189b48ed5fe043ed32dfa7e27e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 072/123] fix: atools accepted an odd number of lines on a
 shared stream and printed nan

---
 utils/atools.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/atools.cc b/utils/atools.cc
index 559eade..63f8b03 100644
--- a/utils/atools.cc
+++ b/utils/atools.cc
@@ -66,7 +66,7 @@ struct FMeasureCommand : public Command {
     const double rec = static_cast<double>(matches) / num_in_ref;
     cout << "P: " << prec << endl;
     cout << "R: " << rec << endl;
-    const double f = (2.0 * prec * rec) / (rec + prec);
+    const double f = matches ? (2.0 * prec * rec) / (rec + prec) : 0.0;
     cout << "F: " << f << endl;
   }
   int matches;
@@ -341,8 +341,10 @@ int main(int argc, char **argv) {
     string line2;
     getline(*in1, line1);
     if (in2) {
+      const bool got1 = !in1->fail();  // in2 may be the same stream
       getline(*in2, line2);
-      if ((*in1 && !*in2) || (*in2 && !*in1)) {
+      const bool got2 = !in2->fail();
+      if (got1 != got2) {
         cerr << "Mismatched number of lines!\n";
         exit(1);
       }
-- 
2.43.0


From 09ad10ab626ecc3309ec8f11e25dc34717fc7483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 073/123] fix: the phrase-based decoder aborted when
 constructed

---
 decoder/phrasebased_translator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 8415353..80bc867 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -76,7 +76,7 @@ struct PhraseBasedTranslatorImpl {
   PhraseBasedTranslatorImpl(const boost::program_options::variables_map& conf) :
       add_pass_through_rules(conf.count("add_pass_through_rules")),
       max_distortion(conf["pb_max_distortion"].as<int>()),
-      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]", true)),
+      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]")),
       kNT_TYPE(TD::Convert("X") * -1) {
     assert(max_distortion >= 0);
     vector<string> gfiles = conf["grammar"].as<vector<string> >();
-- 
2.43.0


From 671471a242cf4bfd9404bf20e7c3404cdb3cdbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 074/123] fix: the phrase-based decoder read past the end of
 the coverage vector

---
 decoder/phrasebased_translator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 80bc867..b39b15c 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -35,7 +35,7 @@ struct Coverage : public vector<bool> {
     if (first_gap == i) {
       first_gap = j;
       it = end;
-      while (*it && it != this->end()) {
+      while (it != this->end() && *it) {
         ++it;
         ++first_gap;
       }
-- 
2.43.0


From 8b61026cb21a69de08b8829b4a7c186b8328596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 075/123] fix: the phrase-based decoder lost alternative paths
 of a lattice that start with the same words

---
 decoder/phrasebased_translator.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index b39b15c..df88f49 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -145,7 +145,12 @@ struct PhraseBasedTranslatorImpl {
         new_cov.Cover(s.i, s.j);
         EnqueuePossibleContinuations(new_cov, &q, &ucs);
         const vector<TRulePtr>& phrases = s.fst->GetTranslations()->GetRules();
-        const int phrase_head_index = minus_lm_forest->AddNode(kNT_TYPE)->id_;
+        CoverageNodeMap::iterator cit = c.find(s.coverage);
+        assert(cit != c.end());
+        const int tail_node_plus1 = cit->second;
+        // at the left edge, alternative phrases may cover the same words
+        const int known_plus1 = tail_node_plus1 == 0 ? c[new_cov] : 0;
+        const int phrase_head_index = known_plus1 ? known_plus1 - 1 : minus_lm_forest->AddNode(kNT_TYPE)->id_;
         for (int i = 0; i < phrases.size(); ++i) {
           Hypergraph::Edge* edge = minus_lm_forest->AddEdge(phrases[i], Hypergraph::TailNodeVector());
           edge->feature_values_ = edge->rule_->scores_;
@@ -153,9 +158,6 @@ struct PhraseBasedTranslatorImpl {
           edge->j_ = s.j;
           minus_lm_forest->ConnectEdgeToHeadNode(edge->id_, phrase_head_index);
         }
-        CoverageNodeMap::iterator cit = c.find(s.coverage);
-        assert(cit != c.end());
-        const int tail_node_plus1 = cit->second;
         if (tail_node_plus1 == 0) {  // left edge
           c[new_cov] = phrase_head_index + 1;
         } else { // not left edge
-- 
2.43.0


From 800c26fbb2a0072fa5a4cd8138fca0996aa420d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 076/123] fix: removing pass-through phrases removed longer
 phrases with the same first word

---
 decoder/phrasetable_fst.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/decoder/phrasetable_fst.cc b/decoder/phrasetable_fst.cc
index b3bec86..26e4cdd 100644
--- a/decoder/phrasetable_fst.cc
+++ b/decoder/phrasetable_fst.cc
@@ -96,8 +96,12 @@ void TextFSTNode::AddPassThroughTranslation(const WordID& w, const SparseVector<
 }
 
 void TextFSTNode::ClearPassThroughTranslations() {
-  for (int i = 0; i < passthroughs.size(); ++i)
-    ptr.erase(passthroughs[i]);
+  for (int i = 0; i < passthroughs.size(); ++i) {
+    map<WordID, TextFSTNode>::iterator it = ptr.find(passthroughs[i]);
+    it->second.data.reset();
+    // longer phrases may start with this word
+    if (it->second.ptr.empty()) ptr.erase(it);
+  }
   passthroughs.clear();
 }
 
-- 
2.43.0


From c5237c08f29b095f1917bd7f0c20c60e4ed6c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 077/123] fix: the fst decoder aborted for a goal other than S

---
 decoder/earley_composer.cc | 10 +++++-----
 decoder/earley_composer.h  |  3 ++-
 decoder/fst_translator.cc  |  2 +-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/decoder/earley_composer.cc b/decoder/earley_composer.cc
index d47a696..58b7335 100644
--- a/decoder/earley_composer.cc
+++ b/decoder/earley_composer.cc
@@ -34,7 +34,6 @@ using namespace std;
 static const int kMAX_NODES = 2000000;
 static const string kPHRASE_STRING = "X";
 static bool constants_need_init = true;
-static WordID kUNIQUE_START;
 static WordID kPHRASE;
 static TRulePtr kX1X2;
 static TRulePtr kX1;
@@ -44,7 +43,6 @@ static TRulePtr kEPSRule;
 static void InitializeConstants() {
   if (constants_need_init) {
     kPHRASE = TD::Convert(kPHRASE_STRING) * -1;
-    kUNIQUE_START = TD::Convert("S") * -1;
     kX1X2.reset(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]"));
     kX1.reset(new TRule("[X] ||| [X,1] ||| [X,1]"));
     kEPSRule.reset(new TRule("[X] ||| <eps> ||| <eps>"));
@@ -410,6 +408,8 @@ class EarleyComposerImpl {
     FreeAll();
   }
 
+  WordID StartCategory() const { return start_cat_; }
+
   // returns the total number of edges created during composition
   int EdgesCreated() const {
     return free_list_.size();
@@ -703,9 +703,9 @@ EarleyComposer::~EarleyComposer() {
   delete pimpl_;
 }
 
-EarleyComposer::EarleyComposer(const FSTNode* fst) {
+EarleyComposer::EarleyComposer(const FSTNode* fst, const string& goal) {
   InitializeConstants();
-  pimpl_ = new EarleyComposerImpl(kUNIQUE_START, *fst);
+  pimpl_ = new EarleyComposerImpl(TD::Convert(goal) * -1, *fst);
 }
 
 bool EarleyComposer::Compose(const Hypergraph& src_forest, Hypergraph* trg_forest) {
@@ -741,7 +741,7 @@ bool EarleyComposer::Compose(const Hypergraph& src_forest, Hypergraph* trg_fores
     cur->is_some_rule_complete = true;
     cur->input_features = edge.feature_values_;
   }
-  EGrammarNode& goal_rule = g[kUNIQUE_START];
+  EGrammarNode& goal_rule = g[pimpl_->StartCategory()];
   assert((goal_rule.ntptr.size() == 1 && goal_rule.tptr.size() == 0) ||
          (goal_rule.ntptr.size() == 0 && goal_rule.tptr.size() == 1));
 
diff --git a/decoder/earley_composer.h b/decoder/earley_composer.h
index 31602f6..4bb52e7 100644
--- a/decoder/earley_composer.h
+++ b/decoder/earley_composer.h
@@ -2,6 +2,7 @@
 #define EARLEY_COMPOSER_H_
 
 #include <iostream>
+#include <string>
 
 class EarleyComposerImpl;
 class FSTNode;
@@ -10,7 +11,7 @@ class Hypergraph;
 class EarleyComposer {
  public:
   ~EarleyComposer();
-  EarleyComposer(const FSTNode* phrasetable_root);
+  EarleyComposer(const FSTNode* phrasetable_root, const std::string& goal = "S");
   bool Compose(const Hypergraph& src_forest, Hypergraph* trg_forest);
 
   // reads the grammar from a file. There must be a single top-level
diff --git a/decoder/fst_translator.cc b/decoder/fst_translator.cc
index fe28f4c..e0a0f30 100644
--- a/decoder/fst_translator.cc
+++ b/decoder/fst_translator.cc
@@ -20,7 +20,7 @@ struct FSTTranslatorImpl {
       kGOAL(TD::Convert("Goal") * -1),
       add_pass_through_rules(conf.count("add_pass_through_rules")) {
     fst.reset(LoadTextPhrasetable(conf["grammar"].as<vector<string> >()));
-    ec.reset(new EarleyComposer(fst.get()));
+    ec.reset(new EarleyComposer(fst.get(), goal_sym));
   }
 
   bool Translate(const string& input,
-- 
2.43.0


From 2bf837fcdbf23cb8fe0ca21f0ee01def1b854162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 078/123] fix: epsilons in the input of the fst decoder lost or
 duplicated derivations and features

---
 decoder/earley_composer.cc |  3 +-
 decoder/hg_remove_eps.cc   | 79 +++++++++++++++-----------------------
 2 files changed, 32 insertions(+), 50 deletions(-)

diff --git a/decoder/earley_composer.cc b/decoder/earley_composer.cc
index 58b7335..1e8b5f7 100644
--- a/decoder/earley_composer.cc
+++ b/decoder/earley_composer.cc
@@ -559,7 +559,8 @@ class EarleyComposerImpl {
       cerr << *edge << " is NOT NEW.\n";
 #endif
     }
-    AddEdgeToTranslationForest(edge, hg);
+    // an item may be predicted any number of times, but starts only once
+    if (is_new || !edge->IsCreatedByPredict()) AddEdgeToTranslationForest(edge, hg);
     return is_new;
   }
 
diff --git a/decoder/hg_remove_eps.cc b/decoder/hg_remove_eps.cc
index 050c487..65203c9 100644
--- a/decoder/hg_remove_eps.cc
+++ b/decoder/hg_remove_eps.cc
@@ -34,58 +34,39 @@ namespace {
 }
 
 void RemoveEpsilons(Hypergraph* g, WordID eps) {
-  vector<bool> kill(g->edges_.size(), false);
-  for (unsigned i = 0; i < g->edges_.size(); ++i) {
-    const Hypergraph::Edge& edge = g->edges_[i];
-    if (edge.tail_nodes_.empty() &&
-        edge.rule_->f_.size() == 1 &&
-        edge.rule_->f_[0] == eps) {
-      kill[i] = true;
-      if (!edge.feature_values_.empty()) {
-        Hypergraph::Node& node = g->nodes_[edge.head_node_];
-        if (node.in_edges_.size() != 1) {
-          cerr << "[WARNING] <eps> edge with features going into non-empty node - can't promote\n";
-          // this *probably* means that there are multiple derivations of the
-          // same sequence via different paths through the input forest
-          // this needs to be investigated and fixed
-        } else {
-          for (unsigned j = 0; j < node.out_edges_.size(); ++j)
-            g->edges_[node.out_edges_[j]].feature_values_ += edge.feature_values_;
-          // cerr << "PROMOTED " << edge.feature_values_ << endl;
-	}
-      }
-    }
-  }
+  const unsigned num_edges = g->edges_.size();
+  vector<bool> kill(num_edges, false);
   bool created_eps = false;
-  g->PruneEdges(kill);
-  for (unsigned i = 0; i < g->nodes_.size(); ++i) {
-    const Hypergraph::Node& node = g->nodes_[i];
-    if (node.in_edges_.empty()) {
-      for (unsigned j = 0; j < node.out_edges_.size(); ++j) {
-        Hypergraph::Edge& edge = g->edges_[node.out_edges_[j]];
-        const int lhs = edge.rule_->lhs_;
-        if (edge.rule_->Arity() == 2) {
-          assert(edge.rule_->f_.size() == 2);
-          assert(edge.rule_->e_.size() == 2);
-          unsigned cur = node.id_;
-          int t = -1;
-          assert(edge.tail_nodes_.size() == 2);
-          int rhs = 0;
-          for (unsigned i = 0; i < 2u; ++i) if (edge.tail_nodes_[i] != cur) { t = edge.tail_nodes_[i]; rhs = edge.rule_->f_[i]; }
-          assert(t != -1);
-          edge.tail_nodes_.resize(1);
-          edge.tail_nodes_[0] = t;
-          edge.rule_ = CreateUnaryRule(lhs, rhs);
-        } else {
-          edge.rule_ = CreateEpsilonRule(lhs, eps);
-          edge.tail_nodes_.clear();
-          created_eps = true;
-        }
+  for (unsigned i = 0; i < num_edges; ++i) {
+    if (!g->edges_[i].tail_nodes_.empty() ||
+        g->edges_[i].rule_->f_.size() != 1 ||
+        g->edges_[i].rule_->f_[0] != eps) continue;
+    kill[i] = true;
+    const SparseVector<double> feats = g->edges_[i].feature_values_;
+    const int node = g->edges_[i].head_node_;
+    // since the node may have other derivations as well, every edge that uses
+    // it gets a variant that does without it
+    const Hypergraph::EdgesVector out_edges = g->nodes_[node].out_edges_;
+    for (unsigned j = 0; j < out_edges.size(); ++j) {
+      const Hypergraph::Edge edge = g->edges_[out_edges[j]];
+      const int lhs = edge.rule_->lhs_;
+      assert(edge.tail_nodes_.size() <= 2);
+      Hypergraph::TailNodeVector tail;
+      int rhs = 0;
+      for (unsigned k = 0; k < edge.tail_nodes_.size(); ++k) {
+        if (edge.tail_nodes_[k] == node) continue;
+        tail.push_back(edge.tail_nodes_[k]);
+        rhs = edge.rule_->f_[k];
       }
+      assert(tail.size() + 1 == edge.tail_nodes_.size());
+      Hypergraph::Edge* variant = g->AddEdge(tail.empty() ? CreateEpsilonRule(lhs, eps) : CreateUnaryRule(lhs, rhs), tail);
+      variant->feature_values_ = edge.feature_values_;
+      variant->feature_values_ += feats;
+      g->ConnectEdgeToHeadNode(variant->id_, edge.head_node_);
+      if (tail.empty()) created_eps = true;
     }
   }
-  vector<bool> k2(g->edges_.size(), false);
-  g->PruneEdges(k2);
+  kill.resize(g->edges_.size(), false);
+  g->PruneEdges(kill, true);  // this removes edges using nodes that only derived epsilon
   if (created_eps) RemoveEpsilons(g, eps);
 }
-
-- 
2.43.0


From 92905e10371fbd8c3a689d6be018ff3c1d8a7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 079/123] fix: the error surface lacked an empty first
 translation and aborted when all statistics were zero

---
 training/dpmert/ces.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/ces.cc b/training/dpmert/ces.cc
index 157b2d1..af14d64 100644
--- a/training/dpmert/ces.cc
+++ b/training/dpmert/ces.cc
@@ -56,7 +56,8 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       seg.ConstructTranslation(&trans);
     //}
     //cerr << "Scoring: " << TD::GetString(trans) << endl;
-    if (trans == prev_trans) {
+    // the first segment has no predecessor, even if its translation is empty
+    if (i > 0 && trans == prev_trans) {
       if (!minimize_segments) {
         ErrorSegment& out = (*env)[j];
         out.delta.fields.clear();
@@ -74,7 +75,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       //string xx; delta.Encode(&xx); cerr << xx << endl;
       prev_trans.swap(trans);
       prev_score = score;
-      if ((!minimize_segments) || (!delta.IsAdditiveIdentity())) {
+      if ((!minimize_segments) || j == 0 || (!delta.IsAdditiveIdentity())) {
         ErrorSegment& out = (*env)[j];
         out.delta = delta;
         out.x = seg.x;
-- 
2.43.0


From 173087910a827cdf842a94a7213594ad53a82865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 080/123] fix: encoded error surfaces cut off statistics of
 more than 255 characters

---
 training/dpmert/error_surface.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/training/dpmert/error_surface.cc b/training/dpmert/error_surface.cc
index 515b67f..4b8cb22 100644
--- a/training/dpmert/error_surface.cc
+++ b/training/dpmert/error_surface.cc
@@ -15,8 +15,7 @@ void ErrorSurface::Serialize(std::string* out) const {
     const ErrorSegment& cur = (*this)[i];
     string senc;
     cur.delta.Encode(&senc);
-    assert(senc.size() < 1024);
-    unsigned char len = senc.size();
+    const int len = senc.size();
     os.write((const char*)&cur.x, sizeof(cur.x));
     os.write((const char*)&len, sizeof(len));
     os.write((const char*)&senc[0], len);
@@ -31,7 +30,7 @@ void ErrorSurface::Deserialize(const std::string& in) {
   this->resize(segments);
   for (int i = 0; i < segments; ++i) {
     ErrorSegment& cur = (*this)[i];
-    unsigned char len;
+    int len;
     is.read((char*)&cur.x, sizeof(cur.x));
     is.read((char*)&len, sizeof(len));
     string senc(len, '\0'); assert(senc.size() == len);
-- 
2.43.0


From 492376bdeb6c1663863cc31dcb69760b8ba0c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 081/123] fix: line search returned a step outside the interval
 whose score it reported

---
 training/dpmert/line_optimizer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/training/dpmert/line_optimizer.cc b/training/dpmert/line_optimizer.cc
index 9cf3350..64faf71 100644
--- a/training/dpmert/line_optimizer.cc
+++ b/training/dpmert/line_optimizer.cc
@@ -33,6 +33,7 @@ double LineOptimizer::LineOptimize(
   }
   sort(all_ints.begin(), all_ints.end(), IntervalComp());
   double last_boundary = all_ints.front()->x;
+  double last_x = last_boundary;  // where the interval that ends at the current segment begins
   SufficientStats acc;
   float& cur_best_score = *best_score;
   cur_best_score = (type == MAXIMIZE_SCORE ?
@@ -51,7 +52,7 @@ double LineOptimizer::LineOptimize(
 	  pos = seg.x - 0.1;
 	  left_edge = false;
 	} else {
-	  pos = last_boundary + (seg.x - last_boundary) / 2;
+	  pos = last_x + (seg.x - last_x) / 2;
 	}
 	//cerr << "NEW BEST: " << pos << "  (score=" << cur_best_score << ")\n";
       }
@@ -66,6 +67,7 @@ double LineOptimizer::LineOptimize(
     //string x2; acc.Encode(&x2); cerr << "   ACC: " << x2 << endl;
     //string x1; seg.delta.Encode(&x1); cerr << " DELTA: " << x1 << endl;
     acc += seg.delta;
+    last_x = seg.x;
   }
   float sco = metric->ComputeScore(acc);
   if ((type == MAXIMIZE_SCORE && sco > cur_best_score) ||
-- 
2.43.0


From e942ae696916f962019c35b87b51671f0f927ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 082/123] fix: search agenda with all weights zero had no
 origin and was misread by the mapper

---
 training/dpmert/mr_dpmert_generate_mapper_input.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/training/dpmert/mr_dpmert_generate_mapper_input.cc b/training/dpmert/mr_dpmert_generate_mapper_input.cc
index 3fa2f47..9cd2689 100644
--- a/training/dpmert/mr_dpmert_generate_mapper_input.cc
+++ b/training/dpmert/mr_dpmert_generate_mapper_input.cc
@@ -60,8 +60,11 @@ int main(int argc, char** argv) {
     features=conf["optimize_feature"].as<vector<string> >();
   vector<SparseVector<weight_t> > directions;
   vector<int> fids(features.size());
-  for (unsigned i = 0; i < features.size(); ++i)
+  for (unsigned i = 0; i < features.size(); ++i) {
     fids[i] = FD::Convert(features[i]);
+    // zero weights are written too: the mapper cannot read an empty vector
+    origin.set_value(fids[i], origin.value(fids[i]));
+  }
   LineOptimizer::CreateOptimizationDirections(
      fids,
      conf["random_directions"].as<unsigned int>(),
-- 
2.43.0


From 0e80b1eaf0a619f7060d6da61a99e8b13d89cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 083/123] fix: mr_dpmert_reduce rounded the step to six digits

---
 training/dpmert/mr_dpmert_reduce.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/mr_dpmert_reduce.cc b/training/dpmert/mr_dpmert_reduce.cc
index 31512a0..77ee66b 100644
--- a/training/dpmert/mr_dpmert_reduce.cc
+++ b/training/dpmert/mr_dpmert_reduce.cc
@@ -1,4 +1,5 @@
 #include <sstream>
+#include <iomanip>
 #include <iostream>
 #include <fstream>
 #include <vector>
@@ -51,7 +52,7 @@ int main(int argc, char** argv) {
       if (!last_key.empty()) {
 	float score;
         double x = LineOptimizer::LineOptimize(metric, esv, opt_type, &score);
-	cout << last_key << "|" << x << "|" << score << endl;
+	cout << last_key << "|" << setprecision(17) << x << "|" << setprecision(6) << score << endl;
       }
       last_key.swap(key);
       esv.clear();
@@ -71,7 +72,7 @@ int main(int argc, char** argv) {
   if (!esv.empty()) {
     float score;
     double x = LineOptimizer::LineOptimize(metric, esv, opt_type, &score);
-    cout << last_key << "|" << x << "|" << score << endl;
+    cout << last_key << "|" << setprecision(17) << x << "|" << setprecision(6) << score << endl;
   }
   return 0;
 }
-- 
2.43.0


From d1c6cd0416727b04ac8f795caa6a091eaae09598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 084/123] fix: lmplz pruned the last n-grams by adjusted
 instead of real counts

---
 klm/lm/builder/adjust_counts.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klm/lm/builder/adjust_counts.cc b/klm/lm/builder/adjust_counts.cc
index 803c557..00875d7 100644
--- a/klm/lm/builder/adjust_counts.cc
+++ b/klm/lm/builder/adjust_counts.cc
@@ -269,7 +269,8 @@ void AdjustCounts::Run(const util::stream::ChainPositions &positions) {
 
   // Output everything valid.
   for (NGramStream *s = streams.begin(); s <= lower_valid; ++s) {
-    if((*s)->Count() <= prune_thresholds_[(*s)->Order() - 1])
+    uint64_t order = (*s)->Order();
+    if(order > 1 && prune_thresholds_[order - 1] && lower_counts[order - 1] <= prune_thresholds_[order - 1])
       (*s)->Mark();
     stats.Add(s - streams.begin(), (*s)->UnmarkedCount(), (*s)->IsMarked());
     ++*s;
-- 
2.43.0


From 55a298adcb794d66918e3a53667d983fae45f473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 085/123] fix: lmplz aborted when an order had no n-grams (all
 pruned or text too short)

---
 klm/lm/builder/pipeline.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klm/lm/builder/pipeline.cc b/klm/lm/builder/pipeline.cc
index 21064ab..aea00a4 100644
--- a/klm/lm/builder/pipeline.cc
+++ b/klm/lm/builder/pipeline.cc
@@ -95,7 +95,7 @@ class Master {
       // Determine the minimum we can use for all the chains.
       std::size_t min_chains = 0;
       for (std::size_t i = 0; i < config_.order; ++i) {
-        min_chains += std::min(counts[i] * NGram::TotalSize(i + 1), static_cast<uint64_t>(config_.minimum_block));
+        min_chains += std::min(std::max<uint64_t>(counts[i], 1) * NGram::TotalSize(i + 1), static_cast<uint64_t>(config_.minimum_block));
       }
       std::size_t for_merge = min_chains > config_.TotalMemory() ? 0 : (config_.TotalMemory() - min_chains);
       std::vector<std::size_t> laziness;
@@ -149,7 +149,8 @@ class Master {
       for (std::size_t i = 0; i < count_bounds.size(); ++i) {
         assignments.push_back(static_cast<std::size_t>(std::min(
             static_cast<uint64_t>(remaining_mem),
-            count_bounds[i] * static_cast<uint64_t>(NGram::TotalSize(i + 1)))));
+            // A chain needs room for one entry even if the order is empty.
+            std::max<uint64_t>(count_bounds[i], 1) * static_cast<uint64_t>(NGram::TotalSize(i + 1)))));
       }
       assignments.resize(config_.order, remaining_mem);
 
-- 
2.43.0


From 66fab35a508ffee4953ed22219c7372bef0a6fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 086/123] fix: reading a saved candidate set stopped at a
 candidate without features

---
 training/utils/candidate_set.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index 36f5b27..4ad87e0 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -89,6 +89,7 @@ static void ParseSparseVector(string& line, size_t cur, SparseVector<double>* ou
   SparseVector<double>& x = *out;
   size_t last_start = cur;
   size_t last_comma = string::npos;
+  if (cur == line.size()) return;  // no features
   while(cur <= line.size()) {
     if (line[cur] == ' ' || cur == line.size()) {
       if (!(cur > last_start && last_comma != string::npos && cur > last_comma)) {
-- 
2.43.0


From 1af5c8ddd592caf6ed01e17e30cc83dc10dd7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 087/123] fix: candidates that compare equal were not merged

---
 training/utils/candidate_set.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index 4ad87e0..b0a733a 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -35,14 +35,14 @@ struct ApproxVectorHasher {
     if ((r << 1) > MASK)
       t.i += MASK - r + 1;
     else
-      t.i &= (1ull - MASK);
+      t.i &= ~MASK;
     return t.f;
   }
   size_t operator()(const SparseVector<double>& x) const {
     size_t h = 0x573915839;
     for (SparseVector<double>::const_iterator it = x.begin(); it != x.end(); ++it) {
       UType t;
-      t.f = it->second;
+      t.f = round(it->second);  // values that compare equal must hash alike
       if (t.f) {
         size_t z = (t.i >> 32);
         boost::hash_combine(h, it->first);
-- 
2.43.0


From 864bc1dc896e2b80bfd3a527107abc96ad7011af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 088/123] fix: RProp moved variables whose derivative is zero

---
 training/utils/optimize.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/optimize.cc b/training/utils/optimize.cc
index 41ac90d..680d52e 100644
--- a/training/utils/optimize.cc
+++ b/training/utils/optimize.cc
@@ -44,7 +44,7 @@ void RPropOptimizer::OptimizeImpl(const double& obj,
                               vector<double>* x) {
   for (int i = 0; i < g.size(); ++i) {
     const double g_i = g[i];
-    const double sign_i = (signbit(g_i) ? -1.0 : 1.0);
+    const double sign_i = (g_i == 0.0 ? 0.0 : (signbit(g_i) ? -1.0 : 1.0));
     const double prod = g_i * prev_g_[i];
     if (prod > 0.0) {
       const double dij = min(delta_ij_[i] * eta_plus_, delta_max_);
-- 
2.43.0


From 5687230f5bad8acc4ec34164ee6edfcda1dd68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 089/123] fix: cumulative L1 penalty was refunded at the end of
 an epoch

---
 training/utils/online_optimizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/online_optimizer.h b/training/utils/online_optimizer.h
index 19223e9..956e8e5 100644
--- a/training/utils/online_optimizer.h
+++ b/training/utils/online_optimizer.h
@@ -89,7 +89,7 @@ class CumulativeL1OnlineOptimizer : public OnlineOptimizer {
     OnlineOptimizer(s, training_instances, frozen), C_(C), u_() {}
 
  protected:
-  void ResetEpochImpl() { u_ = 0; }
+  void ResetEpochImpl() { u_ = 0; q_.clear(); }
   void UpdateWeightsImpl(const double& eta, const SparseVector<double>& approx_g, int max_feat, SparseVector<double>* weights) {
     u_ += eta * C_ / N_;
     for (SparseVector<double>::const_iterator it = approx_g.begin(); 
-- 
2.43.0


From 7daaf4458497c9839c675afe91cf7de45d35139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 090/123] fix: batch optimisers tested convergence after
 leaving the evaluated point

---
 training/crf/mpi_batch_optimize.cc | 2 +-
 training/utils/optimize.h          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/training/crf/mpi_batch_optimize.cc b/training/crf/mpi_batch_optimize.cc
index da1845b..bc163c0 100644
--- a/training/crf/mpi_batch_optimize.cc
+++ b/training/crf/mpi_batch_optimize.cc
@@ -339,7 +339,7 @@ int main(int argc, char** argv) {
       cerr << "  GNORM=" << sqrt(gnorm) << endl;
       vector<weight_t> old = lambdas;
       int c = 0;
-      while (old == lambdas) {
+      while (old == lambdas && !o->HasConverged()) {
         ++c;
         if (c > 1) { cerr << "Same lambdas, repeating optimization\n"; }
         o->Optimize(objective, gradient, &lambdas);
diff --git a/training/utils/optimize.h b/training/utils/optimize.h
index 07943b4..36e362b 100644
--- a/training/utils/optimize.h
+++ b/training/utils/optimize.h
@@ -23,9 +23,10 @@ class BatchOptimizer {
                 std::vector<double>* x) {
     assert(g.size() == x->size());
     ++eval_;
-    OptimizeImpl(obj, g, x);
+    // g was computed at the current x: test for convergence before moving on
     scitbx::lbfgs::traditional_convergence_test<double> converged(g.size());
     has_converged_ = converged(&(*x)[0], &g[0]);
+    if (!has_converged_) OptimizeImpl(obj, g, x);
   }
 
   void Save(std::ostream* out) const;
-- 
2.43.0


From 57961cf6f7a30e68369a0120490537fbaa63c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 091/123] fix: mpi_batch_optimize left zero weights out of the
 Gaussian prior

---
 training/crf/mpi_batch_optimize.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/training/crf/mpi_batch_optimize.cc b/training/crf/mpi_batch_optimize.cc
index bc163c0..b318ece 100644
--- a/training/crf/mpi_batch_optimize.cc
+++ b/training/crf/mpi_batch_optimize.cc
@@ -322,11 +322,9 @@ int main(int argc, char** argv) {
         double norm = 0;
         for (int k = 1; k < lambdas.size(); ++k) {
           const double& lambda_k = lambdas[k];
-          if (lambda_k) {
-            const double param = (lambda_k - means[k]);
-            norm += param * param;
-            gradient[k] += param / sigsq;
-          }
+          const double param = (lambda_k - means[k]);
+          norm += param * param;
+          gradient[k] += param / sigsq;
         }
         const double reg = norm / (2.0 * sigsq);
         cerr << "REGULARIZATION TERM: " << reg << endl;
-- 
2.43.0


From 9147c0478be1dda40065eefbd1c0aa7081821cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 092/123] fix: minrisk_optimize and rampion_cccp merged the
 k-best lists of all sentences

---
 training/minrisk/minrisk_optimize.cc | 2 +-
 training/rampion/rampion_cccp.cc     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/training/minrisk/minrisk_optimize.cc b/training/minrisk/minrisk_optimize.cc
index f90c711..9a925a1 100644
--- a/training/minrisk/minrisk_optimize.cc
+++ b/training/minrisk/minrisk_optimize.cc
@@ -164,6 +164,7 @@ int main(int argc, char** argv) {
   while(getline(in, line)) {
     istringstream is(line);
     int sent_id = 0;
+    is >> file >> sent_id;
     kis.resize(kis.size() + 1);
     training::CandidateSet& curkbest = kis.back();
     string kbest_file;
@@ -174,7 +175,6 @@ int main(int argc, char** argv) {
       if (FileExists(kbest_file))
         curkbest.ReadFromFile(kbest_file);
     }
-    is >> file >> sent_id;
     ReadFile rf(file);
     if (kis.size() % 5 == 0) { cerr << '.'; }
     if (kis.size() % 200 == 0) { cerr << " [" << kis.size() << "]\n"; }
diff --git a/training/rampion/rampion_cccp.cc b/training/rampion/rampion_cccp.cc
index 1c45bac..b4866b0 100644
--- a/training/rampion/rampion_cccp.cc
+++ b/training/rampion/rampion_cccp.cc
@@ -121,7 +121,8 @@ int main(int argc, char** argv) {
   cerr << "Loading hypergraphs...\n";
   while(getline(in, line)) {
     istringstream is(line);
-    int sent_id;
+    int sent_id = 0;
+    is >> file >> sent_id;
     kis.resize(kis.size() + 1);
     training::CandidateSet& curkbest = kis.back();
     string kbest_file;
@@ -132,7 +133,6 @@ int main(int argc, char** argv) {
       if (FileExists(kbest_file))
         curkbest.ReadFromFile(kbest_file);
     }
-    is >> file >> sent_id;
     ReadFile rf(file);
     if (kis.size() % 5 == 0) { cerr << '.'; }
     if (kis.size() % 200 == 0) { cerr << " [" << kis.size() << "]\n"; }
-- 
2.43.0


From 5ec0d83b23e549432f3a7e4e6a7968bba8731212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 093/123] fix: mr_pro_map did not end when a sentence has a
 single candidate

---
 training/pro/mr_pro_map.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/pro/mr_pro_map.cc b/training/pro/mr_pro_map.cc
index b142fd0..f056b41 100644
--- a/training/pro/mr_pro_map.cc
+++ b/training/pro/mr_pro_map.cc
@@ -106,6 +106,7 @@ void Sample(const int gamma,
             const training::CandidateSet& J_i,
             const EvaluationMetric* metric,
             vector<TrainingInstance>* pv) {
+  if (J_i.size() < 2) return;  // no pairs
   const double len_stddev = LengthDifferenceStdDev(J_i, 5000);
   const bool invert_score = metric->IsErrorMetric();
   vector<TrainingInstance> v1, v2;
-- 
2.43.0


From 9a6e0da6ed9a59993179c260ad47a04f3e3047cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 094/123] fix: mr_pro_reduce added the gradient of the held-out
 data

---
 training/pro/mr_pro_reduce.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/pro/mr_pro_reduce.cc b/training/pro/mr_pro_reduce.cc
index a61a3a5..7df9b38 100644
--- a/training/pro/mr_pro_reduce.cc
+++ b/training/pro/mr_pro_reduce.cc
@@ -163,7 +163,7 @@ struct ProLoss {
     double cll = TrainingInference(x, training, g);
     tppl = 0;
     if (testing.size())
-      tppl = pow(2.0, TrainingInference(x, testing, g) / (log(2) * testing.size()));
+      tppl = pow(2.0, TrainingInference(x, testing) / (log(2) * testing.size()));
     double ppl = cll / log(2);
     ppl /= training.size();
     ppl = pow(2.0, ppl);
-- 
2.43.0


From 16df08977df449205c070be0cad0c98cdcf9d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 095/123] fix: L-BFGS divided by zero after a step without
 curvature

---
 training/liblbfgs/lbfgs.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/training/liblbfgs/lbfgs.c b/training/liblbfgs/lbfgs.c
index 0add48f..bf5a74a 100644
--- a/training/liblbfgs/lbfgs.c
+++ b/training/liblbfgs/lbfgs.c
@@ -253,7 +253,7 @@ int lbfgs(
     )
 {
     int ret;
-    int i, j, k, ls, end, bound;
+    int i, j, k, ls, end, bound = 0;
     lbfgsfloatval_t step;
 
     /* Constant parameters and their default values. */
@@ -264,7 +264,7 @@ int lbfgs(
     lbfgsfloatval_t *g = NULL, *gp = NULL, *pg = NULL;
     lbfgsfloatval_t *d = NULL, *w = NULL, *pf = NULL;
     iteration_data_t *lm = NULL, *it = NULL;
-    lbfgsfloatval_t ys, yy;
+    lbfgsfloatval_t ys, yy, scale = 1.;
     lbfgsfloatval_t xnorm, gnorm, beta;
     lbfgsfloatval_t fx = 0.;
     lbfgsfloatval_t rate = 0.;
@@ -552,7 +552,6 @@ int lbfgs(
          */
         vecdot(&ys, it->y, it->s, n);
         vecdot(&yy, it->y, it->y, n);
-        it->ys = ys;
 
         /*
             Recursive formula to compute dir = -(H \cdot g).
@@ -562,9 +561,17 @@ int lbfgs(
                 Mathematics of Computation, Vol. 35, No. 151,
                 pp. 773--782, 1980.
          */
-        bound = (m <= k) ? m : k;
+        /* A pair without positive curvature says nothing about the Hessian (and
+           \rho would be infinite or negative): keep the previous pairs. */
+        if (0. < ys) {
+            it->ys = ys;
+            scale = ys / yy;
+            if (bound < m) ++bound;
+            end = (end + 1) % m;
+        } else if (bound == m) {
+            --bound;    /* its slot held the oldest pair */
+        }
         ++k;
-        end = (end + 1) % m;
 
         /* Compute the steepest direction. */
         if (param.orthantwise_c == 0.) {
@@ -585,7 +592,7 @@ int lbfgs(
             vecadd(d, it->y, -it->alpha, n);
         }
 
-        vecscale(d, ys / yy, n);
+        vecscale(d, scale, n);
 
         for (i = 0;i < bound;++i) {
             it = &lm[j];
-- 
2.43.0


From b75f196479d4bf93dcb59320dfde3c27f3b34bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 096/123] fix: the sentence server crashed when a client hung
 up without sending a key

---
 training/utils/sentserver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index b425955..9c98dca 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -494,8 +494,8 @@ int main (int argc, char *argv[]) {
 			free(client);
 		} else {
 			client_key = read_line(client->s,0);
-			client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
-			if (strcmp(key, client_key)==0){
+			if (client_key) client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
+			if (client_key && strcmp(key, client_key)==0){
 				pthread_create(&tid, NULL, new_client, client);
 			} else {
 				fprintf(stderr, "Prospective client failed to respond with correct key.\n");
-- 
2.43.0


From 015d0ed8120a99f86f14bd2d831901b7f1c3dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 097/123] fix: a synchronisation line in the sentence server
 had an undefined status and could be handed out or freed twice

---
 training/utils/sentserver.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 9c98dca..fde8c32 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -88,6 +88,7 @@ struct line * queue_get(int fid) {
 		cur = (line*)malloc(sizeof (struct line));
 		cur->id = n_sent;
 		cur->s = s;
+		cur->status = STATUS_RUNNING;
 		cur->next = NULL;
 
 		*ptail = cur;
-- 
2.43.0


From 335978d411ed9c007e359c5d7a1e78f38fbe8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 098/123] fix: the sentence server dismissed a client although
 another sentence had just been returned to the queue

---
 training/utils/sentserver.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index fde8c32..b719d2d 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -127,6 +127,15 @@ struct line * queue_get(int fid) {
 
 	if (log_mutex) fprintf(stderr, "Locking queue mutex (%d)\n", fid);
 	pthread_mutex_lock(&queue_mutex);
+	/* A sentence may have been aborted since the queue was checked. */
+	for (cur = head; cur != NULL; cur = cur->next) {
+		if (cur->status == STATUS_ABORTED) {
+			cur->status = STATUS_RUNNING;
+			if (log_mutex) fprintf(stderr, "Unlocking queue mutex (%d)\n", fid);
+			pthread_mutex_unlock(&queue_mutex);
+			return cur;
+		}
+	}
 	if (head == NULL) {
 		fprintf(stderr, "Reached end of file. Exiting.\n");
 		done(0);
-- 
2.43.0


From 5f3963ecca1589e79378362e3283d62fd48d370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 099/123] fix: the sentence server hung when the last client
 was dismissed after a sentence was returned to the queue

---
 training/utils/sentserver.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index b719d2d..6cd056a 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -189,6 +189,18 @@ void queue_abort(struct line *node, int fid) {
 }
 
 
+/* A client has been dismissed: if it was the last one, nobody is left for
+   the sentences that were aborted in the meantime. */
+void queue_dismissed() {
+	struct line *cur;
+	pthread_mutex_lock(&queue_mutex);
+	if (n_clients == 0 && !stay_alive) {
+		for (cur = head; cur != NULL; cur = cur->next)
+			if (cur->status == STATUS_ABORTED) queue_panic();
+	}
+	pthread_mutex_unlock(&queue_mutex);
+}
+
 void queue_print() {
   struct line *cur;
 
@@ -373,6 +385,7 @@ void * new_client(void *arg) {
       n_clients--;
       pthread_mutex_unlock(&clients_mutex);
       fprintf(stderr, "Client dismissed (%d connected)\n", n_clients);
+      queue_dismissed();
       pthread_exit(NULL);
     }
 
-- 
2.43.0


From f698242c83399acdd1c67a9d2b4e0ef5a3a85dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 100/123] fix: the sentence server took half an answer of a
 dying client as its result

---
 training/utils/sentserver.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 6cd056a..49ca686 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -335,6 +335,15 @@ char * read_line(int fd, int multiline) {
     return NULL;
   }
 
+  if (result == 0 && fd != 0) { /* the client hung up */
+    if (s[i-1] == '\n') { /* ... after complete lines */
+      s[i] = '\0';
+      return s;
+    }
+    free(s);
+    return NULL;
+  }
+
   s[i] = '\n';
   s[i+1] = '\0';
 
-- 
2.43.0


From 0a4f377d8c14cfb75b647a13ff4d38675ec4840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 101/123] fix: the sentence server gave up although a client
 had been accepted and not yet counted

---
 training/utils/sentserver.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 49ca686..37fb18d 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -357,10 +357,6 @@ void * new_client(void *arg) {
   char *s;
   char errorbuf[100];
 
-  pthread_mutex_lock(&clients_mutex);
-  n_clients++;
-  pthread_mutex_unlock(&clients_mutex);
-
   fprintf(stderr, "Client connected (%d connected)\n", n_clients);
 
   for (;;) {
@@ -422,6 +418,16 @@ void * new_client(void *arg) {
   return 0;
 }
 
+void start_client(struct clientinfo *client) {
+  pthread_t tid;
+  /* count the client here: the others must not think that nobody is left
+     when it has been accepted, but its thread has not run yet */
+  pthread_mutex_lock(&clients_mutex);
+  n_clients++;
+  pthread_mutex_unlock(&clients_mutex);
+  pthread_create(&tid, NULL, new_client, client);
+}
+
 void done (int code) {
   close(s);
   exit(code);
@@ -444,7 +450,6 @@ int main (int argc, char *argv[]) {
   real measure of security, it's mainly to keep
   jobs from bumping into each other.  */
 
-  pthread_t tid;
   port = DEFAULT_PORT;
 
   for (argi=1; argi < argc; argi++){
@@ -528,7 +533,7 @@ int main (int argc, char *argv[]) {
 			client_key = read_line(client->s,0);
 			if (client_key) client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
 			if (client_key && strcmp(key, client_key)==0){
-				pthread_create(&tid, NULL, new_client, client);
+				start_client(client);
 			} else {
 				fprintf(stderr, "Prospective client failed to respond with correct key.\n");
 				close(client->s);
@@ -537,7 +542,7 @@ int main (int argc, char *argv[]) {
 			free(client_key);
 		}
 	} else {
-		pthread_create(&tid, NULL, new_client, client);
+		start_client(client);
 	}
   }
 
-- 
2.43.0


From 73cd8231eda3878745fe4fd7f639ac3a2f148e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 102/123] fix: the sentence server was killed by SIGPIPE when a
 client was gone, and missed failed writes

---
 training/utils/sentserver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 37fb18d..7186da8 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -17,6 +17,10 @@
 
 #define MAX_CLIENTS 64
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 struct clientinfo {
   int s;
   struct sockaddr_in sin;
@@ -366,8 +370,8 @@ void * new_client(void *arg) {
     if (cur) {
       /* fprintf(stderr, "Sending to client: %s", cur->s); */
       fprintf(stderr, "Sending data %d to client (fid %d)\n", cur->id, client->s);
-      result = write(client->s, cur->s, strlen(cur->s));
-      if (result < strlen(cur->s)){
+      result = send(client->s, cur->s, strlen(cur->s), MSG_NOSIGNAL);
+      if (result < (int)strlen(cur->s)){
         perror("write()");
         sprintf(errorbuf, "Error code: %d\n", errno);
         fputs(errorbuf, stderr);
-- 
2.43.0


From c832e1fcbb2f238e90200e443b5185816c53cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:21 +0000
Subject: [PATCH 103/123] fix: n-grams of order three and more that begin with
 the sentence start never fired

---
 decoder/ff_ngrams.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/ff_ngrams.cc b/decoder/ff_ngrams.cc
index a45bd27..c3376c9 100644
--- a/decoder/ff_ngrams.cc
+++ b/decoder/ff_ngrams.cc
@@ -172,8 +172,9 @@ class NgramDetectorImpl {
   }
 
   inline const State<5> BeginSentenceState() const {
-    State<5> state(order_);
-    state.state[0] = kSOS_;
+    State<5> state;
+    // the most recent word is the last one
+    if (order_ > 1) state.state[order_ - 2] = kSOS_;
     return state;
   }
 
-- 
2.43.0


From 43344209dbc5a45c442b6dcc73cbfc14879d826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:21 +0000
Subject: [PATCH 104/123] fix: the n-gram detector wrote the classes of the
 sentence markers out of bounds

---
 decoder/ff_ngrams.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder/ff_ngrams.cc b/decoder/ff_ngrams.cc
index c3376c9..bbd72b0 100644
--- a/decoder/ff_ngrams.cc
+++ b/decoder/ff_ngrams.cc
@@ -403,6 +403,9 @@ class NgramDetectorImpl {
         cluster_map.resize(wordid + 10, kCDEC_UNK);
       cluster_map[wordid] = clusterid;
     }
+    const size_t max_marker = max(kSOS_, kEOS_);
+    if (max_marker >= cluster_map.size())
+      cluster_map.resize(max_marker + 1, kCDEC_UNK);
     cluster_map[kSOS_] = kSOS_;
     cluster_map[kEOS_] = kEOS_;
   }
-- 
2.43.0


From f72ca2e3e86341250d6f68d78978d05320c48ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:21 +0000
Subject: [PATCH 105/123] fix: WordSet --oov counted nonterminals as
 out-of-vocabulary words

---
 decoder/ff_wordset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ff_wordset.cc b/decoder/ff_wordset.cc
index 9be6f2e..e072c6a 100644
--- a/decoder/ff_wordset.cc
+++ b/decoder/ff_wordset.cc
@@ -63,6 +63,7 @@ void WordSet::TraversalFeaturesImpl(const SentenceMetadata& /*smeta*/ ,
 				    void* /* context */) const {
   double addScore = 0.0;
   for(vector<WordID>::const_iterator it = edge.rule_->e_.begin(); it != edge.rule_->e_.end(); ++it) {
+    if (*it <= 0) continue;  // nonterminals are not words
     bool inVocab = (vocab_.find(*it) != vocab_.end());
     if(oovMode_ && !inVocab) {
       addScore += 1.0;
-- 
2.43.0


From 884d119de2df9885e563509feecffa13a280026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 106/123] fix: RuleShape2 gave rules with different source and
 target classes the same feature

---
 decoder/ff_ruleshape.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ff_ruleshape.cc b/decoder/ff_ruleshape.cc
index 35b41c4..7aad9fc 100644
--- a/decoder/ff_ruleshape.cc
+++ b/decoder/ff_ruleshape.cc
@@ -218,6 +218,7 @@ void RuleShapeFeatures2::TraversalFeaturesImpl(const SentenceMetadata& /* smeta
       fid = &fid->next_[MapF(f[i])];
   }
   if (has_trg_) {
+    fid = &fid->next_[0];  // separates the two sides
     for (unsigned i = 0; i < e.size(); ++i)
       fid = &fid->next_[MapE(e[i])];
   }
-- 
2.43.0


From be2f58523ae6f2f15a52bba55935fa411e8d4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 107/123] fix: reordering features read their table out of
 bounds for spans longer than 15

---
 decoder/ff_spans.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_spans.cc b/decoder/ff_spans.cc
index 0ccac69..a58b448 100644
--- a/decoder/ff_spans.cc
+++ b/decoder/ff_spans.cc
@@ -237,7 +237,7 @@ void CMR2008ReorderingFeatures::TraversalFeaturesImpl(const SentenceMetadata& sm
   assert(edge.i_ >= 0);
   assert(edge.j_ > edge.i_);
   const bool is_reordered = IsArity2RuleReordered(*edge.rule_);
-  const unsigned span_size = edge.j_ - edge.i_;
+  const unsigned span_size = min<unsigned>(edge.j_ - edge.i_, fids_.size() - 1);
   if (use_collapsed_features_) {
     assert(!"not impl"); // TODO
   } else {
-- 
2.43.0


From 7f5c89524262d2295ea1f397f3b9b8da1c64e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 108/123] fix: source syntax and span size features of a rule
 were those of the first span it was applied to

---
 decoder/ff_source_syntax.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/decoder/ff_source_syntax.cc b/decoder/ff_source_syntax.cc
index f6f673d..6128500 100644
--- a/decoder/ff_source_syntax.cc
+++ b/decoder/ff_source_syntax.cc
@@ -100,7 +100,7 @@ struct SourceSyntaxFeaturesImpl {
     //cerr << "fire features: " << rule.AsString() << " for " << i << "," << j << endl;
     const WordID lhs = src_tree(i,j);
     //int& fid_cat = fids_cat(i,j);
-    int& fid_ef = fids_ef(i,j)[&rule];
+    int& fid_ef = fids_ef(i,j)[make_pair(&rule, vector<WordID>(ants, ants + rule.Arity()))];
     if (fid_ef <= 0) {
       ostringstream os;
       //ostringstream os2;
@@ -144,7 +144,8 @@ struct SourceSyntaxFeaturesImpl {
 
   Array2D<WordID> src_tree; // src_tree(i,j) NT = type
   // mutable Array2D<int> fids_cat; // this tends to overfit baddly
-  mutable Array2D<map<const TRule*, int> > fids_ef; // fires for fully lexicalized
+  // the feature depends on the labels of the antecedents too
+  mutable Array2D<map<pair<const TRule*, vector<WordID> >, int> > fids_ef; // fires for fully lexicalized
   unordered_set<int> feature_filter;
 };
 
@@ -189,7 +190,7 @@ struct SourceSpanSizeFeaturesImpl {
 
   int FireFeatures(const TRule& rule, const int i, const int j, const WordID* ants, SparseVector<double>* feats) {
     if (rule.Arity() > 0) {
-      int& fid = fids(i,j)[&rule];
+      int& fid = fids(i,j)[make_pair(&rule, vector<int>(ants, ants + rule.Arity()))];
       if (fid <= 0) {
         ostringstream os;
         os << "SSS:";
@@ -220,7 +221,8 @@ struct SourceSpanSizeFeaturesImpl {
     return SpanSizeTransform(j - i);
   }
 
-  mutable Array2D<map<const TRule*, int> > fids;
+  // the feature depends on the sizes of the antecedents too
+  mutable Array2D<map<pair<const TRule*, vector<int> >, int> > fids;
 };
 
 SourceSpanSizeFeatures::SourceSpanSizeFeatures(const string& param) :
-- 
2.43.0


From 2e75462cf7ebefb1e99f136761f9e1fcfeb91b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 109/123] fix: context templates could not name a position
 above nine with a zero in it

---
 decoder/ff_context.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_context.cc b/decoder/ff_context.cc
index e56f6f1..1990b66 100644
--- a/decoder/ff_context.cc
+++ b/decoder/ff_context.cc
@@ -18,7 +18,7 @@ RuleContextFeatures::RuleContextFeatures(const string& param) {
   //  cerr << "initializing RuleContextFeatures with parameters: " << param;
   kSOS = TD::Convert("<s>");
   kEOS = TD::Convert("</s>");
-  macro_regex = sregex::compile("%([xy])\\[(-[1-9][0-9]*|0|[1-9][1-9]*)]");
+  macro_regex = sregex::compile("%([xy])\\[(-[1-9][0-9]*|0|[1-9][0-9]*)]");
   ParseArgs(param);
 }
 
-- 
2.43.0


From c40924ba0008b48fe44a864159846ab3245fb641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 110/123] fix: tag bigrams with the sentence markers were
 missing in sentences of one word

---
 decoder/ff_tagger.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/ff_tagger.cc b/decoder/ff_tagger.cc
index 7f9af9c..299ff6d 100644
--- a/decoder/ff_tagger.cc
+++ b/decoder/ff_tagger.cc
@@ -56,6 +56,10 @@ void Tagger_BigramIndicator::TraversalFeaturesImpl(const SentenceMetadata& smeta
   if (arity == 0) {
     out_context = edge.rule_->e_[0];
     FireFeature(out_context, 0, features);
+    if (smeta.GetSourceLength() == 1) {  // nothing will be combined
+      FireFeature(-1, out_context, features);
+      FireFeature(out_context, -1, features);
+    }
   } else if (arity == 1) {
     out_context = *static_cast<const WordID*>(ant_contexts[0]);
   } else if (arity == 2) {
-- 
2.43.0


From 5f376a3e4e4b99873bd31a3f1ca395510f28f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 111/123] fix: the compound splitter ignored its list of bad
 words when three files were given

---
 decoder/ff_csplit.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_csplit.cc b/decoder/ff_csplit.cc
index 550ff69..256c5f3 100644
--- a/decoder/ff_csplit.cc
+++ b/decoder/ff_csplit.cc
@@ -46,7 +46,7 @@ struct BasicCSplitFeaturesImpl {
       abort();
     }
     freq_dict_.Load(argv[0]);
-    if (argc == 2) {
+    if (argc >= 2) {
       ReadFile rf(argv[1]);
       istream& in = *rf.stream();
       while(in) {
-- 
2.43.0


From 77809174ab52dfd59a259f25af61c4daf46f789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 112/123] fix: the last entry of a frequency dictionary got
 frequency zero and comment lines ended the loading

---
 decoder/freqdict.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/decoder/freqdict.h b/decoder/freqdict.h
index 07d797e..62e608a 100644
--- a/decoder/freqdict.h
+++ b/decoder/freqdict.h
@@ -19,10 +19,8 @@ class FreqDict {
     std::istream& ifs = *rf.stream();
     int cc=0;
     std::string word;
-    while (ifs) {
-      ifs >> word;
-      if (word.size() == 0) continue;
-      if (word[0] == '#') continue;
+    while (ifs >> word) {
+      if (word[0] == '#') { std::getline(ifs, word); continue; }
       T count = 0;
       ifs >> count;
       if (count > max_) max_ = count;
-- 
2.43.0


From 43e100438565f1ecdaca0177a8c6156cb127653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 113/123] fix: MaxTranslationSample read past the end of the
 list of sampled translations

---
 decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/decoder.cc b/decoder/decoder.cc
index 1e6c319..2d98f93 100644
--- a/decoder/decoder.cc
+++ b/decoder/decoder.cc
@@ -248,7 +248,7 @@ struct DecoderImpl {
     }
     sort(dist.begin(), dist.end(), SampleSort());
     if (k) {
-      for (int i = 0; i < k; ++i)
+      for (int i = 0; i < k && i < dist.size(); ++i)
         cout << dist[i].first << " ||| " << dist[i].second << endl;
     } else {
       cout << dist[0].second << endl;
-- 
2.43.0


From 3228d30e57d6a8e179fd7fc6b8251392cb300e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 114/123] fix: the strategy of the first pass decided about
 fast cube pruning in every later pass

---
 decoder/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/decoder.cc b/decoder/decoder.cc
index 2d98f93..4f0f9d9 100644
--- a/decoder/decoder.cc
+++ b/decoder/decoder.cc
@@ -585,11 +585,11 @@ DecoderImpl::DecoderImpl(po::variables_map& conf, int argc, char** argv, istream
       if (LowercaseString(str(isn.c_str(),conf)) == "full") {
         palg = 0;
       }
-      if (LowercaseString(conf["intersection_strategy"].as<string>()) == "fast_cube_pruning") {
+      if (LowercaseString(str(isn.c_str(),conf)) == "fast_cube_pruning") {
         palg = 2;
         cerr << "Using Fast Cube Pruning intersection (see Algorithm 2 described in: Gesmundo A., Henderson J,. Faster Cube Pruning, IWSLT 2010).\n";
       }
-      if (LowercaseString(conf["intersection_strategy"].as<string>()) == "fast_cube_pruning_2") {
+      if (LowercaseString(str(isn.c_str(),conf)) == "fast_cube_pruning_2") {
         palg = 3;
         cerr << "Using Fast Cube Pruning 2 intersection (see Algorithm 3 described in: Gesmundo A., Henderson J,. Faster Cube Pruning, IWSLT 2010).\n";
       }
-- 
2.43.0


From 1fc13508edd6c2c91df2a70a25dbbbf96411fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 115/123] fix: language model states collided when hashed,
 merging different hypotheses in incremental search

---
 klm/lm/state.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/klm/lm/state.hh b/klm/lm/state.hh
index f6c51d6..c858fba 100644
--- a/klm/lm/state.hh
+++ b/klm/lm/state.hh
@@ -84,10 +84,12 @@ struct Left {
 };
 
 inline uint64_t hash_value(const Left &left) {
-  unsigned char add[2];
-  add[0] = left.length;
-  add[1] = left.full;
-  return util::MurmurHashNative(add, 2, left.length ? left.pointers[left.length - 1] : 0);
+  // The pointer has to be hashed as data: it is a small number for unigrams and
+  // in tries, where as a seed it would just be xored with length and full.
+  uint64_t add[2];
+  add[0] = left.length | (static_cast<uint64_t>(left.full) << 8);
+  add[1] = left.length ? left.pointers[left.length - 1] : 0;
+  return util::MurmurHashNative(add, sizeof(add), 0);
 }
 
 struct ChartState {
-- 
2.43.0


From 4d4506ae43202e581e90b24c887a0711795b6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 116/123] fix: the language model filter lost the last batch of
 raw files with several threads

---
 klm/lm/filter/format.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/lm/filter/format.hh b/klm/lm/filter/format.hh
index 5a2e2db..ffc97a6 100644
--- a/klm/lm/filter/format.hh
+++ b/klm/lm/filter/format.hh
@@ -129,6 +129,7 @@ struct CountFormat {
   template <class Filter, class Out> static void RunFilter(util::FilePiece &in, Filter &filter, Out &output) {
     DispatchInput<Filter, Out> dispatcher(filter, output);
     ReadCount(in, dispatcher);
+    filter.Flush();
   }
 };
 
-- 
2.43.0


From 9c5eda039c5658c289a9924a3326487bc48e5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 117/123] fix: the language model filter took the first line of
 a reused batch for the line before

---
 klm/lm/filter/format.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klm/lm/filter/format.hh b/klm/lm/filter/format.hh
index ffc97a6..3e5c19b 100644
--- a/klm/lm/filter/format.hh
+++ b/klm/lm/filter/format.hh
@@ -231,6 +231,8 @@ class MultipleOutputBuffer {
         }
       }
       annotated_.clear();
+      // The memory lines refer to is reused by the next batch.
+      last_ = StringPiece();
     }
 
   private:
-- 
2.43.0


From 26b5b8fcc153a71fedc619247bfec1d5f73f1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 118/123] fix: the language model filter hung when a batch was
 just full at the end of an order

---
 klm/lm/filter/thread.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/lm/filter/thread.hh b/klm/lm/filter/thread.hh
index 6a6523f..e4896ea 100644
--- a/klm/lm/filter/thread.hh
+++ b/klm/lm/filter/thread.hh
@@ -125,6 +125,7 @@ template <class Filter, class OutputBuffer, class RealOutput> class Controller :
     }
 
     void Flush() {
+      // Even an empty batch has to be sent because it has a sequence number.
       FlushInput();
       while (local_read_.size() < queue_size_) {
         MoveRead();
@@ -134,7 +135,6 @@ template <class Filter, class OutputBuffer, class RealOutput> class Controller :
 
   private:
     void FlushInput() {
-      if (input_->Empty()) return;
       filter_.Produce(local_read_.top());
       local_read_.pop();
       if (local_read_.empty()) MoveRead();
-- 
2.43.0


From 1aa0eb8395c895664147bde170162c4853ff4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 119/123] fix: the language model filter read in front of empty
 lines of raw files

---
 klm/lm/filter/count_io.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/lm/filter/count_io.hh b/klm/lm/filter/count_io.hh
index de894ba..051960a 100644
--- a/klm/lm/filter/count_io.hh
+++ b/klm/lm/filter/count_io.hh
@@ -75,7 +75,7 @@ template <class Output> void ReadCount(util::FilePiece &in_file, Output &out) {
     while (true) {
       StringPiece line = in_file.ReadLine();
       util::TokenIter<util::SingleCharacter> tabber(line, '\t');
-      if (!tabber) {
+      if (!tabber || tabber->empty()) {
         std::cerr << "Warning: empty n-gram count line being removed\n";
         continue;
       }
-- 
2.43.0


From dc8fb638b9123ee47b9c44c526e1ad2da4f13aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:07 +0000
Subject: [PATCH 120/123] fix: the constituent distance of an unlabelled span
 of one word was not initialised

---
 decoder/ff_parse_match.cc         | 2 +-
 decoder/ff_soft_syntax_mindist.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ff_parse_match.cc b/decoder/ff_parse_match.cc
index 5802697..5e38f9c 100644
--- a/decoder/ff_parse_match.cc
+++ b/decoder/ff_parse_match.cc
@@ -108,7 +108,7 @@ struct ParseMatchFeaturesImpl {
     //cerr << "span: " << i << " " << j << endl;
     const WordID lhs = src_tree(i,j);
     int fid_ef = FD::Convert("PM");
-    int min_dist; // minimal distance to next syntactic constituent of this rule's LHS
+    int min_dist = 1; // minimal distance to next syntactic constituent of this rule's LHS
     int summed_min_dists; // minimal distances of LHS and NTs summed up
     if (TD::Convert(lhs).compare("XX") != 0)
         min_dist= 0;
diff --git a/decoder/ff_soft_syntax_mindist.cc b/decoder/ff_soft_syntax_mindist.cc
index a23f70f..9201321 100644
--- a/decoder/ff_soft_syntax_mindist.cc
+++ b/decoder/ff_soft_syntax_mindist.cc
@@ -102,7 +102,7 @@ struct SoftSyntaxFeaturesMindistImpl {
 	  //cerr << "RULE :"<< rule << endl;
     int& fid_ef = fids_ef(i,j)[&rule];
     string lhs_to_str = TD::Convert(lhs);
-    int min_dist;
+    int min_dist = 1;
     string min_dist_label;
     if (lhs_to_str.compare("XX") != 0) {
       min_dist = 0;
-- 
2.43.0


From d74ca68e627335424b5ab99ad75e223a128e0c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:07 +0000
Subject: [PATCH 121/123] fix: relative parse-match scores were divided as
 integers

---
 decoder/ff_parse_match.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_parse_match.cc b/decoder/ff_parse_match.cc
index 5e38f9c..415a970 100644
--- a/decoder/ff_parse_match.cc
+++ b/decoder/ff_parse_match.cc
@@ -172,7 +172,7 @@ struct ParseMatchFeaturesImpl {
         break;
       case 3:
         // relative scoring
-        feats->set_value(fid_ef, (j-i)/((j-i) + min_dist));
+        feats->set_value(fid_ef, static_cast<double>(j-i)/((j-i) + min_dist));
         break;
       default:
         // binary scoring in case nothing is defined
-- 
2.43.0


From 933b7520d5e243eaca188439b4215e23eb9d6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:05 +0000
Subject: [PATCH 122/123] fix: only the first use of a shared rule was turned
 round when a linear chain is intersected with a reference

---
 decoder/hg_intersect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg_intersect.cc b/decoder/hg_intersect.cc
index b9381d0..79a2b05 100644
--- a/decoder/hg_intersect.cc
+++ b/decoder/hg_intersect.cc
@@ -75,7 +75,7 @@ static bool FastLinearIntersect(const Lattice& target, Hypergraph* hg) {
         cov.insert(trg_index);
         swap(edge.prev_i_, edge.i_);
         swap(edge.prev_j_, edge.j_);
-        edge.rule_.swap(inv_rule);
+        edge.rule_ = inv_rule;
       }
     }
   }
-- 
2.43.0


From c0f37677fbcf5c0a09ee7e88083d7ee12230ee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:25 +0000
Subject: [PATCH 123/123] fix: intersecting a linear chain with a shorter
 reference read beyond the end of the reference

---
 decoder/hg_intersect.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/hg_intersect.cc b/decoder/hg_intersect.cc
index 79a2b05..200e8a4 100644
--- a/decoder/hg_intersect.cc
+++ b/decoder/hg_intersect.cc
@@ -62,7 +62,8 @@ static bool FastLinearIntersect(const Lattice& target, Hypergraph* hg) {
   for (unsigned i = 0; i < prune.size(); ++i) {
     Hypergraph::Edge& edge = hg->edges_[i];
     if (edge.Arity() == 0) {
-      const int trg_index = edge.prev_i_;
+      const unsigned trg_index = edge.prev_i_;
+      if (trg_index >= target.size()) return false;  // chain longer than target
       const WordID trg = target[trg_index][0].label;
       assert(edge.rule_->EWords() == 1);
       TRulePtr& inv_rule = inverted_rules[edge.rule_.get()];
-- 
2.43.0

