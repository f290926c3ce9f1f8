From 4597dea3af39a09c26030c7f765fd97f1b777f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 001/118] fix: sum the values, not the keys, of repeated keys
 when building a sparse vector

---
 src/lib/sparse-map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 8c97133..594394a 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -124,7 +124,7 @@ SparseVector::SparseVector(const std::vector<SparsePair> & vec) : impl_(vec) {
     SparseVectorImpl::iterator itl = impl_.begin(), itr = impl_.begin()+1;
     while(itr != impl_.end()) {
         if(itl->first == itr->first) {
-            itl->second += itr->first;
+            itl->second += itr->second;
         } else {
             itl++;
             *itl = *itr;
-- 
2.43.0


From f1e8f360ea6e8b9f5cc8553adf56a17f7a9bc1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 002/118] fix: negate features missing from the left side when
 subtracting sparse vectors in place

---
 src/lib/sparse-map.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 594394a..7b36992 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -214,7 +214,8 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
     SparseVector::SparseVectorImpl & impl = lhs.GetImpl();
     while(itr != rhs.end()) {
         if(itl == lhs.end()) {
-            impl.insert(itl, itr, rhs.end());
+            for(; itr != rhs.end(); itr++)
+                impl.push_back(make_pair(itr->first, -itr->second));
             break;
         } else if(itl->first == itr->first) {
             itl->second -= itr->second;
@@ -222,7 +223,7 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
         } else if(itl->first < itr->first) {
             itl++;
         } else {
-            itl = impl.insert(itl, *itr);
+            itl = impl.insert(itl, make_pair(itr->first, -itr->second));
             itr++;
         }
     }
-- 
2.43.0


From c47edb649541f4997cf25cb36166e7613560690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 003/118] fix: do not return the same derivation twice in
 n-best lists when scores are not exact

---
 src/include/travatar/hyper-graph.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 600a7f4..db2b286 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -338,7 +338,12 @@ public:
 
     typedef std::set<boost::shared_ptr<NbestStackItem>, StackScoreMore> NbestStateStack;
 
-    void PushStack(const boost::shared_ptr<NbestStackItem> & item) { stack.insert(item); }
+    // Push an item, unless the same combination was already pushed by way of a
+    // different child (the score can't be used to tell, it may differ by rounding)
+    void PushStack(const boost::shared_ptr<NbestStackItem> & item) {
+        if(pushed.insert(std::make_pair(item->edge_rank, item->child_ranks)).second)
+            stack.insert(item);
+    }
     boost::shared_ptr<NbestStackItem> PopStack() {
         NbestStateStack::iterator beg = stack.begin();
         boost::shared_ptr<NbestStackItem> ret = *beg;
@@ -348,6 +353,7 @@ public:
 
     std::vector<NbestEdge> edges;
     NbestStateStack stack;
+    std::set<std::pair<int, std::vector<int> > > pushed;
     std::vector<boost::shared_ptr<HyperPath> > paths;
     std::set<CfgDataVector> uniq_sents;
 
-- 
2.43.0


From 6c28b6c71fd4697a2e4039a298ff6c08e3450f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 004/118] fix: compare only the target words when looking for
 unique n-best entries

---
 src/include/travatar/hyper-graph.h | 3 ++-
 src/lib/hyper-graph.cc             | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index db2b286..b060492 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -355,7 +355,8 @@ public:
     NbestStateStack stack;
     std::set<std::pair<int, std::vector<int> > > pushed;
     std::vector<boost::shared_ptr<HyperPath> > paths;
-    std::set<CfgDataVector> uniq_sents;
+    // The target words (for each factor) of the paths found so far
+    std::set<std::vector<Sentence> > uniq_sents;
 
 };
 
diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index ba937f5..241878f 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -342,11 +342,12 @@ boost::shared_ptr<HyperPath> HyperGraph::NbestGetNthPath(int node, int rank, boo
         boost::shared_ptr<HyperPath> act_path = NbestCreatePath(node, *item, uniq, states);
         // Check whether to add it or not
         if(uniq) {
-            CfgDataVector trg = act_path->CalcTranslations();
-            if(state->uniq_sents.find(trg) == state->uniq_sents.end()) {
-                state->uniq_sents.insert(trg);
+            // Only the words matter, not the shape of the derivation
+            vector<Sentence> trg;
+            BOOST_FOREACH(const CfgData & data, act_path->CalcTranslations())
+                trg.push_back(data.words);
+            if(state->uniq_sents.insert(trg).second)
                 state->paths.push_back(act_path);
-            }
         } else {
             state->paths.push_back(act_path);
         }
-- 
2.43.0


From 901e3d2aa86b2595d98e8a381e7c5f2e9ef6d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 005/118] fix: subtract the true maximum when adding log
 probabilities

---
 src/include/travatar/softmax.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/softmax.h b/src/include/travatar/softmax.h
index f9f15f0..6ec376b 100644
--- a/src/include/travatar/softmax.h
+++ b/src/include/travatar/softmax.h
@@ -9,8 +9,9 @@ namespace travatar {
 inline Real AddLogProbs(const std::vector<Real> & probs) {
     if(probs.size() == 0)
         return -REAL_MAX;
-    const unsigned size = probs.size();
-    Real myMax = std::max(probs[0],probs[size-1]), norm=0;
+    Real myMax = probs[0], norm=0;
+    for(unsigned i = 1; i < probs.size(); i++)
+        myMax = std::max(myMax, probs[i]);
     for(unsigned i = 0; i < probs.size(); i++)
         norm += exp(probs[i]-myMax);
     return log(norm)+myMax;
-- 
2.43.0


From aac49db834aa1e5141ec90deec26c652fdaaed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 006/118] fix: keep rule edges, not just plain edges, when
 trimming or appending a rule graph

---
 src/lib/hyper-graph.cc | 4 +++-
 src/lib/trimmer.cc     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 241878f..0132010 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -588,7 +588,9 @@ int HyperGraph::Append(const HyperGraph & rhs) {
     BOOST_FOREACH(const HyperNode * node, rhs.GetNodes())
         nodes_.push_back(new HyperNode(*node));
     BOOST_FOREACH(const HyperEdge * edge, rhs.GetEdges())
-        edges_.push_back(new HyperEdge(*edge));
+        edges_.push_back(rhs.GetEdgeType() == RULE_EDGE ?
+                         new RuleEdge(*static_cast<const RuleEdge*>(edge)) :
+                         new HyperEdge(*edge));
     // Re-adjust the links
     for(int i = node_start; i < (int)nodes_.size(); i++) {
         nodes_[i]->SetId(i);
diff --git a/src/lib/trimmer.cc b/src/lib/trimmer.cc
index 7c5b4c0..112224a 100644
--- a/src/lib/trimmer.cc
+++ b/src/lib/trimmer.cc
@@ -26,7 +26,9 @@ HyperGraph * Trimmer::TransformGraph(const HyperGraph & hg) const {
     BOOST_FOREACH(const HyperEdge * edge, hg.GetEdges()) {
         std::map<int,int>::const_iterator it = active_edges.find(edge->GetId());
         if(it != active_edges.end())
-            ret->GetEdges()[it->second] = new HyperEdge(*edge);
+            ret->GetEdges()[it->second] = (hg.GetEdgeType() == HyperGraph::RULE_EDGE ?
+                                           new RuleEdge(*static_cast<const RuleEdge*>(edge)) :
+                                           new HyperEdge(*edge));
     }
     BOOST_FOREACH(const HyperNode * node, hg.GetNodes()) {
         std::map<int,int>::const_iterator it = active_nodes.find(node->GetId());
-- 
2.43.0


From eff4f30a538b73e5f3b5f057f851820c27126604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 007/118] fix: read target words that are numbers as words in
 JSON forests

---
 src/lib/tree-io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a8c72e6..d4989df 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -232,8 +232,9 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                 // Get the words
                 try {
                     BOOST_FOREACH(ptree::value_type &x, t.second.get_child("words")) {
+                        // Variables are negative, any other number is a word
                         int val = x.second.get<int>("", INT_MAX);
-                        if(val == INT_MAX)
+                        if(val >= 0)
                             val = Dict::WID(x.second.get<string>(""));
                         trg_data.words.push_back(val);
                     }
-- 
2.43.0


From 6a1e044299d9338285d39f77f085335e402db32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 008/118] fix: read back the source string of the edges of JSON
 forests

---
 src/lib/tree-io.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index d4989df..19ad419 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -243,6 +243,7 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                 edge->GetTrgData().push_back(trg_data);
             }
         } catch (ptree_bad_path e) { }
+        edge->SetSrcStr(v.second.get<string>("src_str", ""));
         edge->SetScore(v.second.get<Real>("score", 0.0));
         ret->AddEdge(edge);
     }
-- 
2.43.0


From 148fea57442a07883f03e046a265f36df7f2f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 009/118] fix: escape feature names when printing them as JSON

---
 src/lib/sparse-map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 7b36992..f074681 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -30,7 +30,7 @@ std::ostream & operator<<(std::ostream & out, const SparseMap & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << Dict::WSymEscaped(kv.first) << ": " << kv.second;
         }
     }
     out << "}";
@@ -180,7 +180,7 @@ std::ostream & operator<<(std::ostream & out, const SparseVector & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs.GetImpl()) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << Dict::WSymEscaped(kv.first) << ": " << kv.second;
         }
     }
     out << "}";
-- 
2.43.0


From 39b965873431454d79250c8c2bdbea47f106a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 010/118] fix: escape control characters when writing JSON

---
 src/include/travatar/string-util.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/string-util.h b/src/include/travatar/string-util.h
index ce8253d..d8aa61a 100644
--- a/src/include/travatar/string-util.h
+++ b/src/include/travatar/string-util.h
@@ -39,9 +39,21 @@ inline std::string FirstToken(const std::string & str, char c = ' ') {
     return std::string(&str[0], end);
 }
 
-inline std::string EscapeQuotes(std::string ret) {
-    boost::replace_all(ret, "\\", "\\\\");
-    boost::replace_all(ret, "\"", "\\\"");
+// Escape a string so it can be put between quotes in JSON
+inline std::string EscapeQuotes(const std::string & str) {
+    static const char * hex = "0123456789abcdef";
+    std::string ret;
+    ret.reserve(str.size());
+    for(size_t i = 0; i < str.size(); i++) {
+        const unsigned char c = str[i];
+        if(c == '\\' || c == '"') {
+            ret += '\\'; ret += c;
+        } else if(c < 0x20) {
+            ret += "\\u00"; ret += hex[c >> 4]; ret += hex[c & 15];
+        } else {
+            ret += c;
+        }
+    }
     return ret;
 }
 
-- 
2.43.0


From 70f90eacbb76f727c6a29188919dcdd675bfde2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 011/118] fix: keep repeated words apart when reading Egret
 forests

---
 src/include/travatar/tree-io.h |  2 +-
 src/lib/tree-io.cc             | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/include/travatar/tree-io.h b/src/include/travatar/tree-io.h
index 0f4d614..2a9084d 100644
--- a/src/include/travatar/tree-io.h
+++ b/src/include/travatar/tree-io.h
@@ -69,7 +69,7 @@ public:
     void SetNormalize(bool normalize) { normalize_ = normalize; }
     bool GetNormalize(bool normalize) const { return normalize_; }
 private:
-    HyperNode * MakeEgretNode(const std::string & str_id, SymbolSet<int> & node_map, HyperGraph * graph);
+    HyperNode * MakeEgretNode(const std::string & str_id, SymbolSet<int> & node_map, HyperGraph * graph, const HyperNode * parent = NULL);
 
     // Whether to normalize edge posteriors to per-node confusions (def: true)
     bool normalize_;
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 19ad419..e8ca6c3 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -272,16 +272,22 @@ void JSONTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
     out << "]}";
 }
 
-HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, SymbolSet<int> & node_map, HyperGraph * graph) {
-    // Try to find the node
-    int id = node_map.GetId(str_id, true);
+HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, SymbolSet<int> & node_map, HyperGraph * graph, const HyperNode * parent) {
+    static const regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
+    smatch node_match;
+    bool has_span = regex_match(str_id, node_match, node_regex);
+    // Try to find the node. Terminals have no span of their own, so use that of the
+    // parent to distinguish multiple occurrences of the same word
+    ostringstream key;
+    key << str_id;
+    if(!has_span && parent)
+        key << " " << parent->GetSpan().first << " " << parent->GetSpan().second;
+    int id = node_map.GetId(key.str(), true);
     if(id < graph->NumNodes()) return graph->GetNode(id);
     else if (id != graph->NumNodes()) THROW_ERROR("Mismatched ID numbers in MakeEgretTreeNode()");
     // Make the node if it doesn't exist
-    regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
-    smatch node_match;
     HyperNode * new_node;
-    if(!regex_match(str_id, node_match, node_regex)) {
+    if(!has_span) {
         new_node = new HyperNode(Dict::WID(str_id));
     } else {
         new_node = new HyperNode(Dict::WID(node_match[1]), 
@@ -332,7 +338,7 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         if(buff != "=>") THROW_ERROR("=> not found in Egret node string: " << line);
         // Read the tail nodes
         while(iss >> buff && buff != "|||") {
-            HyperNode * tail = MakeEgretNode(buff, node_map, ret);
+            HyperNode * tail = MakeEgretNode(buff, node_map, ret, head);
             // Set terminal node's spans to those of their parent
             if(tail->GetSpan().first == -1)
                 tail->SetSpan(head->GetSpan());
-- 
2.43.0


From 59a0c18fd54bd58d574d14bc9943058dd87a9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 012/118] fix: flatten whole unary chains and leave a
 consistent graph

---
 src/lib/unary-flattener.cc | 59 ++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/lib/unary-flattener.cc b/src/lib/unary-flattener.cc
index 24b2940..50dc947 100644
--- a/src/lib/unary-flattener.cc
+++ b/src/lib/unary-flattener.cc
@@ -7,27 +7,44 @@ using namespace travatar;
 using namespace std;
 using namespace boost;
 
-// Binarize the graph to the right
-HyperGraph * UnaryFlattener::TransformGraph(const HyperGraph & hg) const {
-    // First copy the graph
-    HyperGraph * ret = new HyperGraph(hg);
-    BOOST_FOREACH(HyperNode * node, ret->GetNodes()) {
-        if(node->NumEdges() > 1) {
-            // THROW_ERROR("Flatten does not currently work for hypergraphs of degree > 1");
-        } else if(node->NumEdges() == 0 ||
-                  node->GetEdge(0)->NumTails() != 1) {
-            continue;
-        }
-        HyperEdge * old_edge = node->GetEdge(0);
-        HyperNode * old_child = old_edge->GetTail(0);
-        if(old_child->NumEdges() > 0) {
-            node->GetEdges().clear();
-            node->GetEdges().push_back(old_child->GetEdge(0));
-            node->GetEdge(0)->SetHead(node);
-            node->SetSym(Dict::WID(Dict::WSym(node->GetSym())+"_"+
-                                   Dict::WSym(old_child->GetSym())));
-        } 
+// Copy the part of the graph under node, skipping nodes in unary chains
+static HyperNode * FlattenNode(const HyperNode * node, HyperGraph & ret, vector<HyperNode*> & done) {
+    if(done[node->GetId()] != NULL) return done[node->GetId()];
+    HyperNode * new_node = new HyperNode(node->GetSym(), node->GetTrgSym(), node->GetSpan());
+    ret.AddNode(new_node);
+    done[node->GetId()] = new_node;
+    // Follow the chain of unary non-terminals
+    string sym = Dict::WSym(node->GetSym());
+    SparseVector features;
+    Real score = 0;
+    while(node->NumEdges() == 1 && node->GetEdge(0)->NumTails() == 1
+                && !node->GetEdge(0)->GetTail(0)->IsTerminal()) {
+        features += node->GetEdge(0)->GetFeatures();
+        score += node->GetEdge(0)->GetScore();
+        node = node->GetEdge(0)->GetTail(0);
+        sym += "_" + Dict::WSym(node->GetSym());
     }
-    return ret;
+    new_node->SetSym(Dict::WID(sym));
+    // Copy the edges at the end of the chain
+    BOOST_FOREACH(const HyperEdge * edge, node->GetEdges()) {
+        HyperEdge * new_edge = new HyperEdge(*edge);
+        new_edge->SetHead(new_node);
+        new_edge->SetFeatures(edge->GetFeatures() + features);
+        new_edge->SetScore(edge->GetScore() + score);
+        ret.AddEdge(new_edge);
+        new_node->AddEdge(new_edge);
+        BOOST_FOREACH(HyperNode * & tail, new_edge->GetTails())
+            tail = FlattenNode(tail, ret, done);
+    }
+    return new_node;
+}
 
+// Flatten the unary productions in the graph
+HyperGraph * UnaryFlattener::TransformGraph(const HyperGraph & hg) const {
+    HyperGraph * ret = new HyperGraph;
+    ret->SetWords(hg.GetWords());
+    vector<HyperNode*> done(hg.NumNodes(), (HyperNode*)NULL);
+    if(hg.NumNodes() > 0)
+        FlattenNode(hg.GetNode(0), *ret, done);
+    return ret;
 }
-- 
2.43.0


From e360b3f93ab302302a71d6ec13b4a434da3a1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 013/118] fix: keep score and features of a preterminal edge
 when its word is split

---
 src/lib/word-splitter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/word-splitter.cc b/src/lib/word-splitter.cc
index 95fd738..a874258 100644
--- a/src/lib/word-splitter.cc
+++ b/src/lib/word-splitter.cc
@@ -62,6 +62,8 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
             vector<HyperEdge*> & edges = node->GetEdges();
             HyperEdge* edge = new HyperEdge(node);
             edge->SetId(edges[0]->GetId());
+            edge->SetScore(edges[0]->GetScore());
+            edge->SetFeatures(edges[0]->GetFeatures());
             delete ret->GetEdges()[edge->GetId()];
             ret->GetEdges()[edge->GetId()] = edge;
             BOOST_FOREACH(HyperNode* new_node, new_nodes[node_idx]) {
-- 
2.43.0


From bc35833ff222d471a332660c050dbce25842d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 014/118] fix: number rule variables in source order when
 extracting tree rules

---
 src/lib/forest-extractor.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index d06175b..c07b2e9 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -5,6 +5,7 @@
 #include <travatar/alignment.h>
 #include <travatar/global-debug.h>
 #include <travatar/dict.h>
+#include <algorithm>
 #include <queue>
 #include <stack>
 #include <list>
@@ -15,6 +16,11 @@ using namespace travatar;
 using namespace std;
 using namespace boost;
 
+// Compare two nodes by the position of their source span
+static bool SrcSpanBefore(const HyperNode * a, const HyperNode * b) {
+    return a->GetSpan() < b->GetSpan();
+}
+
 // Create a rule graph using Mi and Huang's forest-based rule extraction algorithm
 //  "Forest-based Translation Rule Extraction"
 //  Haitao Mi and Liang Huang
@@ -54,6 +60,10 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
             FragFront frag_front = open.top(); open.pop();
             // If there are no more nodes to expand, add the rule
             if(frag_front.second.size() == 0) {
+                // The tails were found in the order of expansion, put them in the
+                // order in which the variables are numbered on the source side
+                vector<HyperNode*> & tails = frag_front.first->GetTails();
+                sort(tails.begin(), tails.end(), SrcSpanBefore);
                 ret->AddEdge(frag_front.first);
                 new_node->AddEdge(frag_front.first);
             }
-- 
2.43.0


From 0f25e5cd4557298b6c9fe542a0d4db1d92a0b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 015/118] fix: normalizing an empty rule graph read past the
 end of its node list

---
 src/lib/hyper-graph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 0132010..cf8c1af 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -510,6 +510,8 @@ vector< vector<HyperEdge*> > HyperGraph::GetReversedEdges() {
 
 // Perform the inside-outside algorithm, where each edge score is a log probability
 void HyperGraph::InsideOutsideNormalize() {
+    // An empty graph has nothing to normalize
+    if(nodes_.size() == 0) return;
     // Calculate the inside and outside probabilities
     vector<Real> inside(nodes_.size(), -REAL_MAX), outside(nodes_.size(), -REAL_MAX);
     vector<vector<HyperEdge*> > rev_edges = GetReversedEdges();
-- 
2.43.0


From 6e3efc3f0bb59cc274f8283181341efcbc41c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 016/118] fix: ThreadPool::Run read stopped_ without holding
 the lock

---
 src/lib/thread-pool.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index a5674a7..cefa09d 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -14,13 +14,14 @@ ThreadPool::ThreadPool(int num_threads, int queue_limit) :
 }
 
 void ThreadPool::Run() {
-    while(!stopped_) {
+    while(true) {
         Task* task = NULL;
         {
             boost::mutex::scoped_lock lock(mutex_);
             if(tasks_.empty() && !stopped_)
                 thread_needed_.wait(lock);
-            if(!stopped_ && !tasks_.empty()) {
+            if(stopped_) return;
+            if(!tasks_.empty()) {
                 task = tasks_.front();
                 tasks_.pop();
             }
-- 
2.43.0


From abbf781889f7b4b31a7f8edeec65268a6f82a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 017/118] fix: reject malformed formula queries instead of
 evaluating them

---
 src/lib/math-query.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib/math-query.cc b/src/lib/math-query.cc
index bd87f7c..4bc7cae 100644
--- a/src/lib/math-query.cc
+++ b/src/lib/math-query.cc
@@ -10,6 +10,13 @@ using namespace boost;
 
 namespace travatar {
 
+// Convert the characters of a number, which has at most one decimal point
+static Real ParseNumber(const std::string & str) {
+    if(str.find('.') != str.rfind('.'))
+        THROW_ERROR("Bad number in query: " << str);
+    return std::atof(str.c_str());
+}
+
 MathQuery::MathQuery(const std::string query, const std::map<WordId,Real> var_map) {
     // Parse the query into data structure
     int read = -1;
@@ -23,7 +30,7 @@ MathQuery::MathQuery(const std::string query, const std::map<WordId,Real> var_ma
         if (read == -1 || !((c >= '0' && c <= '9') || c == '.')) {
             // We are reading number before and we are done reading number!
             if (read != -1) {
-                tokens_.push_back(new Operand(std::atof(query.substr(read,i-read).c_str())));
+                tokens_.push_back(new Operand(ParseNumber(query.substr(read,i-read))));
                 read = -1;
             }
             
@@ -53,7 +60,7 @@ MathQuery::MathQuery(const std::string query, const std::map<WordId,Real> var_ma
     }
     // In case the last token is a number
     if (read != -1) 
-        tokens_.push_back(new Operand(std::atof(query.substr(read,query.length()-read).c_str())));
+        tokens_.push_back(new Operand(ParseNumber(query.substr(read,query.length()-read))));
 }
 
 MathQuery::~MathQuery() {
@@ -71,8 +78,15 @@ Real MathQuery::Evaluate(const MathQuery& query) {
     vector<MathToken*> postfix;
     
     // Convert to postfix notation
+    bool need_operand = true; // whether the next token must start an operand
     BOOST_FOREACH(MathToken* tok, query.tokens_) {
         int c = tok->type_;
+        // Operands and operators must alternate
+        if ((c == OPERAND || c == OPEN_PARENTHESES) && !need_operand)
+            THROW_ERROR("Not enough operator on query: " << query);
+        if ((c == BINARY_OPERATOR || c == CLOSE_PARENTHESES) && need_operand)
+            THROW_ERROR("Not enough operand on query: " << query);
+        need_operand = (c == BINARY_OPERATOR || c == OPEN_PARENTHESES);
         if (c == OPERAND) {
             postfix.push_back(tok);
         } else if (c == OPEN_PARENTHESES) {
@@ -106,6 +120,8 @@ Real MathQuery::Evaluate(const MathQuery& query) {
             THROW_ERROR("Undefined token type: " << c);
         }
     }
+    if (need_operand)
+        THROW_ERROR("Not enough operand on query: " << query);
     while (!temp.empty()) {
         if (temp.top()->type_ == OPEN_PARENTHESES) {
             THROW_ERROR("Too many opening bracket in query: " << query);
-- 
2.43.0


From f62b075d701cc190b190dbd9ce07c94855f0f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 018/118] fix: AutoProbing::Insert did not count its entries,
 so the table never grew

---
 src/kenlm/util/probing_hash_table.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kenlm/util/probing_hash_table.hh b/src/kenlm/util/probing_hash_table.hh
index ea228dd..c742aa0 100644
--- a/src/kenlm/util/probing_hash_table.hh
+++ b/src/kenlm/util/probing_hash_table.hh
@@ -278,6 +278,7 @@ template <class EntryT, class HashT, class EqualT = std::equal_to<typename Entry
     // Assumes that the key is unique.  Multiple insertions won't cause a failure, just inconsistent lookup.
     template <class T> MutableIterator Insert(const T &t) {
       DoubleIfNeeded();
+      ++backend_.entries_;
       return backend_.UncheckedInsert(t);
     }
 
-- 
2.43.0


From fb0d86f9fa09f5c8bc73805fe750267d522cf451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 019/118] fix: FilePiece::Offset went back when buffered data
 was moved to the front

---
 src/kenlm/util/file_piece.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kenlm/util/file_piece.cc b/src/kenlm/util/file_piece.cc
index 4aaa250..1563fe8 100644
--- a/src/kenlm/util/file_piece.cc
+++ b/src/kenlm/util/file_piece.cc
@@ -303,6 +303,7 @@ void FilePiece::ReadShift() {
     } else {
       std::size_t moving = position_end_ - position_;
       memmove(data_.get(), position_, moving);
+      mapped_offset_ += position_ - data_.begin();
       position_ = data_.begin();
       position_end_ = position_ + moving;
       already_read = moving;
-- 
2.43.0


From eb091ad7db39c7a8981bceb21a0896a8c068bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 020/118] fix: number parsing shifted an int by 32 or more bits

---
 src/kenlm/util/double-conversion/strtod.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kenlm/util/double-conversion/strtod.cc b/src/kenlm/util/double-conversion/strtod.cc
index e298766..062053e 100644
--- a/src/kenlm/util/double-conversion/strtod.cc
+++ b/src/kenlm/util/double-conversion/strtod.cc
@@ -286,7 +286,7 @@ static bool DiyFpStrtod(Vector<const char> buffer,
   const int kDenominator = 1 << kDenominatorLog;
   // Move the remaining decimals into the exponent.
   exponent += remaining_decimals;
-  int error = (remaining_decimals == 0 ? 0 : kDenominator / 2);
+  uint64_t error = (remaining_decimals == 0 ? 0 : kDenominator / 2);
 
   int old_e = input.e();
   input.Normalize();
-- 
2.43.0


From 440dc4d5ef15009655011364cde2d4eda29260fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 021/118] fix: FilePiece::get reported the end of the file when
 the last chunk was mapped

---
 src/kenlm/util/file_piece.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kenlm/util/file_piece.hh b/src/kenlm/util/file_piece.hh
index 5495ddc..9b25f5b 100644
--- a/src/kenlm/util/file_piece.hh
+++ b/src/kenlm/util/file_piece.hh
@@ -45,7 +45,7 @@ class FilePiece {
     char get() {
       if (position_ == position_end_) {
         Shift();
-        if (at_end_) throw EndOfFileException();
+        if (position_ == position_end_) throw EndOfFileException();
       }
       return *(position_++);
     }
-- 
2.43.0


From d8a3e2efbb4bf1887b25cf6cb443eea2eb012f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 022/118] fix: rounding could push a perfect BLEU over one, and
 empty n-gram orders gave NaN

---
 src/lib/eval-measure-bleu.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index c0716d9..ace586d 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -113,7 +113,10 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
         Real sys = (vals_[3*i+1]+smooth);
         Real ref = (vals_[3*i+2]+smooth);
         
-        Real fmeas = (sys == 0 ? 0 : mat / (prec_weight_ * sys + (1-prec_weight_) * ref));
+        Real denom = prec_weight_ * sys + (1-prec_weight_) * ref;
+        Real fmeas = (sys == 0 || denom == 0 ? 0 : mat / denom);
+        // A perfect match can be slightly over one because of rounding
+        if(fmeas > 1.0 && fmeas < 1.0 + 1e-6) fmeas = 1.0;
         // To support PINC
         if (inverse_)
             fmeas = 1.0 - fmeas;
-- 
2.43.0


From 50d07624496fb37c62debaea44af1bd11a3cb69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 023/118] fix: RIBES ignored the largest context window

---
 src/lib/eval-measure-ribes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-ribes.cc b/src/lib/eval-measure-ribes.cc
index ad8fd4e..eca8dc7 100644
--- a/src/lib/eval-measure-ribes.cc
+++ b/src/lib/eval-measure-ribes.cc
@@ -52,7 +52,7 @@ boost::shared_ptr<EvalStats> EvalMeasureRibes::CalculateStats(const Sentence & r
             // These vectors store all hypotheses that are still matching on the right or left
             vector<int> left_ref = ref_match, left_sys = sys_match,
                         right_ref = ref_match, right_sys = sys_match;
-            for(int window = 1; window < max(i, (int)sys.size()-i); window++) {
+            for(int window = 1; window <= max(i, (int)sys.size()-i); window++) {
                 // Update the possible hypotheses on the left
                 if(window <= i) {
                     vector<int> new_left_ref, new_left_sys;
-- 
2.43.0


From 6fafc21e2bb0392ec77fb4922e2f3ffa209ebf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 024/118] fix: NIST was NaN when the system output has no
 n-grams of some order

---
 src/lib/eval-measure-nist.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 5b56928..48a4420 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -98,7 +98,8 @@ NistReport EvalStatsNist::CalcNistReport() const {
     // Calculate the precision for each order
     report.nist = 0.0;
     for (int i=0; i < ngram_order; i++) {
-        Real score = vals_[2*i]/vals_[2*i+1];
+        // There may be no n-grams of this order at all
+        Real score = (vals_[2*i+1] ? vals_[2*i]/vals_[2*i+1] : 0);
         report.scores.push_back(score);
         report.nist += score;
     }
-- 
2.43.0


From db585bdb4feecbe23d03db07bbfbcc8124ebc630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 025/118] fix: TER wrote past its tables for sentences of 1000
 words or more

---
 src/tercpp/tercalc.cpp | 15 +++++++--------
 src/tercpp/tercalc.h   |  4 ++--
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/tercpp/tercalc.cpp b/src/tercpp/tercalc.cpp
index 6966933..21a5ad4 100755
--- a/src/tercpp/tercalc.cpp
+++ b/src/tercpp/tercalc.cpp
@@ -608,13 +608,12 @@ namespace TERCpp
         NBR_BS_APPELS++;
 
 	
+        S.resize ( ref.size() + 1 );
+        P.resize ( ref.size() + 1 );
         for ( i = 0; i <= ( int ) ref.size(); i++ )
         {
-            for ( j = 0; j <= ( int ) hyp.size(); j++ )
-            {
-                S[i][j] = -1.0;
-                P[i][j] = '0';
-            }
+            S[i].assign ( hyp.size() + 1, -1.0 );
+            P[i].assign ( hyp.size() + 1, '0' );
         }
         S[0][0] = 0.0;
         for ( j = 0; j <= ( int ) hyp.size(); j++ )
@@ -834,9 +833,9 @@ namespace TERCpp
     {
         bestShiftStruct to_return;
         bool anygain = false;
-        bool herr[ ( int ) hyp.size() ];
-        bool rerr[ ( int ) ref.size() ];
-        int ralign[ ( int ) ref.size() ];
+        bool herr[ ( int ) hyp.size() + 1 ];
+        bool rerr[ ( int ) ref.size() + 1 ];
+        int ralign[ ( int ) ref.size() + 1 ];
         calculateTerAlignment ( med_align, herr, rerr, ralign );
         vector<vecTerShift> poss_shifts;
         poss_shifts = calculerPermutations ( cur, ref, rloc, med_align, herr, rerr, ralign );
diff --git a/src/tercpp/tercalc.h b/src/tercpp/tercalc.h
index c136f78..5a3b6c1 100755
--- a/src/tercpp/tercalc.h
+++ b/src/tercpp/tercalc.h
@@ -41,8 +41,8 @@ namespace TERCpp
             bool PRINT_DEBUG;
 
             // Utilisés dans minDistEdit et ils ne sont pas réajustés 
-            double S[1000][1000];
-            char P[1000][1000];
+            vector< vector<double> > S;
+            vector< vector<char> > P;
             vector<vecInt> refSpans;
             vector<vecInt> hypSpans;
             int TAILLE_BEAM;
-- 
2.43.0


From 8949cfb594e7c147b445c2e9362e5f63f092d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 026/118] fix: initialize the components of interpolated
 measures with the references

---
 src/include/travatar/eval-measure-adv-interp.h | 3 +++
 src/include/travatar/eval-measure-interp.h     | 3 +++
 src/lib/eval-measure-adv-interp.cc             | 7 +++++++
 src/lib/eval-measure-interp.cc                 | 7 +++++++
 4 files changed, 20 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 6b764bd..bb2c284 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -52,6 +52,9 @@ public:
     EvalMeasureAdvInterp(const std::string & str);
     virtual ~EvalMeasureAdvInterp() { }
 
+    // Initialize all of the measures with the references
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 86139e2..8027aa3 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -52,6 +52,9 @@ public:
     EvalMeasureInterp(const std::string & str);
     virtual ~EvalMeasureInterp() { }
 
+    // Initialize all of the measures with the references
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 272bc0d..5783178 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -68,6 +68,13 @@ EvalStatsPtr EvalStatsAdvInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsAdvInterp(newstats, vars_, query_));
 }
 
+// Initialize all of the measures with the references
+void EvalMeasureAdvInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureAdvInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 5087c82..de68dbd 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -68,6 +68,13 @@ EvalStatsPtr EvalStatsInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsInterp(newstats, coeffs_));
 }
 
+// Initialize all of the measures with the references
+void EvalMeasureInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
-- 
2.43.0


From 2f72719bafd2a5a2f3a0052d57ba9c3f3ae8093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 027/118] fix: mt-evaluator crashed for an empty reference or
 bootstrap of one sentence

---
 src/lib/mt-evaluator-runner.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/mt-evaluator-runner.cc b/src/lib/mt-evaluator-runner.cc
index 6658087..63d40c8 100644
--- a/src/lib/mt-evaluator-runner.cc
+++ b/src/lib/mt-evaluator-runner.cc
@@ -30,6 +30,7 @@ void MTEvaluatorRunner::Run(const ConfigMTEvaluatorRunner & config) {
     while(getline(refin, line))
         ref_sentences.push_back(Dict::ParseWordVector(line));
     int ref_len = ref_sentences.size();
+    if(ref_len == 0) THROW_ERROR("No sentences in reference: " << config.GetString("ref"));
     bool sent = config.GetBool("sent");
     
     // Load the evaluation measure
@@ -50,10 +51,12 @@ void MTEvaluatorRunner::Run(const ConfigMTEvaluatorRunner & config) {
         bootstrap_sets.resize(ref_len);
         vector<int> ids(ref_len);
         for(int i = 0; i < ref_len; i++) ids[i] = i;
+        // Every set must have at least one sentence
+        int set_len = max(1, ref_len/2);
         for(int i = 0; i < bootstrap; i++) {
             random_shuffle(ids.begin(), ids.end());
             PRINT_DEBUG("Set " << i << ":", 2);
-            for(int j = 0; j < ref_len/2; j++) {
+            for(int j = 0; j < set_len; j++) {
                 bootstrap_sets[ids[j]].push_back(i);
                 PRINT_DEBUG(" " << ids[j], 2);
             }
-- 
2.43.0


From 221ef722abd08e07995ae8224c0ed32bf5b290d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 028/118] fix: PlusEqualsTimes did nothing for interpolated
 statistics

---
 src/include/travatar/eval-measure-adv-interp.h | 1 +
 src/include/travatar/eval-measure-interp.h     | 1 +
 src/lib/eval-measure-adv-interp.cc             | 8 ++++++++
 src/lib/eval-measure-interp.cc                 | 8 ++++++++
 4 files changed, 18 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index bb2c284..a5a6d5a 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -28,6 +28,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 8027aa3..b7b9a4d 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -29,6 +29,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 5783178..2cfdde1 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsAdvInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsAdvInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index de68dbd..5d64a3f 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsInterp & rhsi = (const EvalStatsInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
-- 
2.43.0


From 7bc196041e79004b8f87e6a4c50ad1bd015a7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 029/118] fix: compare the whole formula when comparing formula
 statistics

---
 src/lib/eval-measure-adv-interp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 2cfdde1..863276b 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -61,9 +61,9 @@ EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
 }
 bool EvalStatsAdvInterp::Equals(const EvalStats & rhs) const {
     const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
-    if(stats_.size() != rhsi.stats_.size()) return false;
+    if(stats_.size() != rhsi.stats_.size() || query_ != rhsi.query_) return false;
     for(int i = 0; i < (int)stats_.size(); i++) {
-        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i] || query_[i] != rhsi.query_[i])
+        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i])
             return false;
     }
     return true;
-- 
2.43.0


From 163014d3688dece3a971d202560fc92eb84337b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 030/118] fix: write evaluation statistics with all of their
 digits

---
 src/lib/eval-measure.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/eval-measure.cc b/src/lib/eval-measure.cc
index 85badd0..be84b23 100644
--- a/src/lib/eval-measure.cc
+++ b/src/lib/eval-measure.cc
@@ -91,6 +91,8 @@ void EvalStats::ReadStats(const std::string & str) {
 }
 std::string EvalStats::WriteStats() {
     std::ostringstream oss;
+    // Keep enough digits that no statistics are lost
+    oss.precision(15);
     for(int i = 0; i < (int)vals_.size(); i++) {
         if(i) oss << ' ';
         oss << vals_[i];
-- 
2.43.0


From 2bebce92cff903599a48da382e5a1bf19fbb03a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 031/118] fix: reading the final weights erased zero weights
 from the map being iterated

---
 src/lib/weights-average-perceptron.cc | 4 +++-
 src/lib/weights-perceptron.cc         | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 6308526..a94fced 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -12,7 +12,9 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 // Get the final values of the weights
 const SparseMap & WeightsAveragePerceptron::GetFinal() {
     if(curr_iter_) {
-        BOOST_FOREACH(SparseMap::value_type final_val, current_) {
+        // GetCurrent removes weights that have become zero, so iterate over a copy
+        SparseMap prev = current_;
+        BOOST_FOREACH(const SparseMap::value_type & final_val, prev) {
             // Save the old value and get the new value in the range
             int prev_iter = last_update_[final_val.first];
             Real avg_val = final_[final_val.first];
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 7758465..a8bf741 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -10,8 +10,10 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 
 // Get the final values of the weights
 const SparseMap & WeightsPerceptron::GetFinal() {
-    BOOST_FOREACH(SparseMap::value_type val, current_)
-        val.second = GetCurrent(val.first);
+    // GetCurrent removes weights that have become zero, so iterate over a copy
+    SparseMap prev = current_;
+    BOOST_FOREACH(const SparseMap::value_type & val, prev)
+        GetCurrent(val.first);
     return current_;
 }
 
-- 
2.43.0


From 815e20d3ba7ff43a612b05d25fa387ce47b648a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 032/118] fix: new weights were regularized for the steps
 before they existed

---
 src/lib/weights-adagrad.cc    | 2 ++
 src/lib/weights-perceptron.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lib/weights-adagrad.cc b/src/lib/weights-adagrad.cc
index 5ed5d5b..5b5af4c 100644
--- a/src/lib/weights-adagrad.cc
+++ b/src/lib/weights-adagrad.cc
@@ -18,6 +18,8 @@ void WeightsAdagrad::Update(
             varinv_[change_val.first] += change_val.second * change_val.second;
             new_val += rate_ * sqrt(1/varinv_[change_val.first]) * change_val.second;
             current_[change_val.first] = new_val;
+            // Regularization starts from here, also for weights that were zero up to now
+            last_update_[change_val.first] = curr_iter_;
         }
     }
     PRINT_DEBUG(current_ << std::endl, 2);
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index a8bf741..ed7cc20 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -29,6 +29,8 @@ void WeightsPerceptron::Update(
             Real new_val = GetCurrent(change_val.first) + change_val.second * rate_;
             // And ensure we are in the correct range
             current_[change_val.first] = InRange(new_val, GetRange(change_val.first));
+            // Regularization starts from here, also for weights that were zero up to now
+            last_update_[change_val.first] = curr_iter_;
         }
     }
     curr_iter_++;
-- 
2.43.0


From 198fe06740f246a086500a1b6a0fd6d06d7a1f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 033/118] fix: adagrad updates ignored the range of the weight

---
 src/lib/weights-adagrad.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/weights-adagrad.cc b/src/lib/weights-adagrad.cc
index 5b5af4c..1b181e2 100644
--- a/src/lib/weights-adagrad.cc
+++ b/src/lib/weights-adagrad.cc
@@ -4,6 +4,10 @@
 using namespace std;
 using namespace travatar;
 
+inline Real InRange(Real val, pair<Real,Real> range) {
+    return min(max(val,range.first), range.second);
+}
+
 // The pairwise weight update rule
 void WeightsAdagrad::Update(
     const SparseVector & oracle, Real oracle_score, Real oracle_eval,
@@ -17,7 +21,7 @@ void WeightsAdagrad::Update(
             Real new_val = GetCurrent(change_val.first);
             varinv_[change_val.first] += change_val.second * change_val.second;
             new_val += rate_ * sqrt(1/varinv_[change_val.first]) * change_val.second;
-            current_[change_val.first] = new_val;
+            current_[change_val.first] = InRange(new_val, GetRange(change_val.first));
             // Regularization starts from here, also for weights that were zero up to now
             last_update_[change_val.first] = curr_iter_;
         }
-- 
2.43.0


From cbc7a7648c22357c299fe0db1ebd38ed309d6601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 034/118] fix: reading averaged perceptron weights between
 updates changed their average

---
 src/lib/weights-average-perceptron.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index a94fced..b818a27 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -22,6 +22,12 @@ const SparseMap & WeightsAveragePerceptron::GetFinal() {
             final_[final_val.first] = (avg_val*prev_iter + new_val*(curr_iter_-prev_iter))/curr_iter_;
             last_update_[final_val.first] = curr_iter_;
         }
+        // Weights that have become zero still count for the iterations up to now
+        BOOST_FOREACH(SparseMap::value_type & final_val, final_) {
+            int & prev_iter = last_update_[final_val.first];
+            final_val.second = final_val.second*prev_iter/curr_iter_;
+            prev_iter = curr_iter_;
+        }
         return final_;
     } else {
         return current_;
@@ -68,6 +74,9 @@ Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) {
     // Find the difference between the last update
     int diff = curr_iter_ - last_update_[key];
     if(diff != 0) {
+        // Add the iterations up to now to the average before marking them as handled
+        Real & avg_val = final_[key];
+        avg_val = (avg_val*last_update_[key] + it->second*diff)/curr_iter_;
         Real reg = diff*l1_coeff_;
         // Find the value
         if(it->second > 0)
-- 
2.43.0


From e955673a8d4c3d3e7ed6a5352185237bd4343f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 035/118] fix: adjusting weights from an n-best list evaluated
 the source, not the hypotheses

---
 src/lib/weights.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/weights.cc b/src/lib/weights.cc
index 08a0a5e..c489821 100644
--- a/src/lib/weights.cc
+++ b/src/lib/weights.cc
@@ -33,7 +33,7 @@ void Weights::Adjust(const Sentence & src,
         std::pair<Real,Real> score(path->GetScore(), -REAL_MAX);
         BOOST_FOREACH(const Sentence & ref, refs)
             score.second = std::max(
-                            eval.CalculateStats(ref, src)->ConvertToScore(),
+                            eval.CalculateStats(ref, my_hyp)->ConvertToScore(),
                             score.second);
         scores.push_back(score);
         features.push_back(new SparseVector(path->GetFeatures()));
-- 
2.43.0


From 99587f32a66d43cae15dc47dade0d42ef1c87d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:53 +0000
Subject: [PATCH 036/118] fix: start MERT from the score of the initial
 weights, not from zero

---
 src/lib/tune-mert.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index f8efe2d..9b8e120 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -102,8 +102,8 @@ void TuneMert::Init(const SparseMap & init_weights) {
 
 // Tune new weights using greedy mert until the threshold is exceeded
 Real TuneMert::RunTuning(SparseMap & weights) {
-    // Continue
-    Real best_score = 0;
+    // Start from the score of the current weights (which may be negative)
+    Real best_score = TuneMert::LineSearch(weights, SparseMap(), examps_).before->ConvertToScore();
     PRINT_DEBUG("Starting MERT Run: " << Dict::PrintSparseMap(weights) << endl, 2);
     while(true) {
         // 1) Initialize the best result
-- 
2.43.0


From 27f7bba3d7e28707d69c1ace44779d352ef31241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 037/118] fix: greedy MERT crashed when no weight improves the
 score

---
 src/lib/tune-greedy-mert.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 9f2d1d4..563410b 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -43,7 +43,7 @@ void GreedyMertTask::Run() {
 
 // Constructor
 TuneGreedyMert::TuneGreedyMert() : Tune(),
-                       early_terminate_(false) { }
+                       early_terminate_(false), threads_(0) { }
 
 void TuneGreedyMert::UpdateBest(const SparseMap &gradient, const LineSearchResult &result) {
     boost::mutex::scoped_lock lock(result_mutex_);
@@ -60,7 +60,9 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
     curr_weights_ = weights;
 
     // Initialize
-    best_result_ = LineSearchResult();
+    // (no change in any weight is the result to beat)
+    EvalStatsPtr curr_stats = TuneMert::LineSearch(weights, SparseMap(), examps_).before;
+    best_result_ = LineSearchResult(0, curr_stats, curr_stats);
     best_gradient_ = SparseMap();
     PRINT_DEBUG("Calculating potential gains..." << endl, 2);
     SparseMap potential;
@@ -115,7 +117,8 @@ Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     do {
         result = TuneOnce(weights);
     } while(result.gain > gain_threshold_);
-    return result.after->ConvertToScore();
+    // The last result was not applied to the weights, so return the score before it
+    return result.before->ConvertToScore();
 }
 
 Real TuneGreedyMert::GetBestGain() { return best_result_.gain; }
-- 
2.43.0


From 3ec497dd12ade15097b90faf488b579202f2a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 038/118] fix: the MERT line search chose spans that only
 existed due to rounding

---
 src/lib/tune-mert.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index 9b8e120..7169c85 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -1,4 +1,5 @@
 #include <cfloat>
+#include <cmath>
 #include <map>
 #include <boost/foreach.hpp>
 #include <boost/shared_ptr.hpp>
@@ -19,6 +20,7 @@ using namespace boost;
 using namespace travatar;
 
 #define MARGIN 1
+#define MIN_SPAN 1e-10
 
 TuneMert::TuneMert() : use_coordinate_(true), num_random_(0) { }
 
@@ -63,9 +65,13 @@ LineSearchResult TuneMert::LineSearch(
         // to the less optimistic side (or gain to the optimistic side)
         if(last_bound <= 0 && boundary.first >= 0)
             zero_stats = curr_stats->Clone();
-        // Update the span if it exceeds the previous best and is in the acceptable gradient range
+        // Update the span if it exceeds the previous best and is in the acceptable gradient range.
+        // Spans that are only there due to rounding (when more than two lines intersect
+        // at the same point) have no inside, so their score cannot be reached.
         Real curr_score = curr_stats->ConvertToScore();
-        if(curr_score > best_score && (last_bound < range.second && boundary.first > range.first)) {
+        bool has_inside = boundary.first - last_bound > MIN_SPAN * max((Real)1.0, fabs(boundary.first)) ||
+                          (last_bound <= 0 && boundary.first >= 0);
+        if(curr_score > best_score && has_inside && (last_bound < range.second && boundary.first > range.first)) {
             best_span = ScoredSpan(Span(last_bound, boundary.first), curr_stats->Clone());
             best_score = curr_score;
         }
-- 
2.43.0


From a86fbb32671efcdb27e51e80fc48e6f88a7dfefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:35 +0000
Subject: [PATCH 039/118] fix: n-best envelopes could run backwards due to
 rounding, which aborted line search for BLEU

---
 src/lib/tuning-example-nbest.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/tuning-example-nbest.cc b/src/lib/tuning-example-nbest.cc
index 44b53ea..6a41bf8 100644
--- a/src/lib/tuning-example-nbest.cc
+++ b/src/lib/tuning-example-nbest.cc
@@ -90,6 +90,8 @@ ConvexHull TuningExampleNbest::CalculateConvexHull(
                 best_pos = my_pos;
             }
         }
+        // When several lines meet at one point, rounding can put this intersection before the previous one
+        if(best_pos < prev_pos) best_pos = prev_pos;
         PRINT_DEBUG("Adding hull: " << prev_pos << ", " << best_pos << ", " << lines[i].second->ConvertToString() << endl, 6);
         hull.push_back(make_pair(make_pair(prev_pos, best_pos), lines[i].second));
         i = best_j;
-- 
2.43.0


From 4f8f5132e2640240fdb1510d83d2bf9607767bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 040/118] fix: the expected-score gradient added to whatever
 the buffer held, so L-BFGS summed old gradients

---
 src/lib/gradient-xeval.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index ff1a78b..71d755e 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -3,6 +3,7 @@
 #include <travatar/eval-measure-bleu.h>
 #include <travatar/softmax.h>
 #include <boost/foreach.hpp>
+#include <algorithm>
 #include <cmath>
 
 using namespace std;
@@ -132,6 +133,9 @@ void GradientXeval::CalcBleuGradient(
 
 Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
 
+    // The gradient is accumulated below, so start from zero
+    std::fill(g, g+n, 0.0);
+
     // Get the scaling factor
     Real gamma = (dense_scale_id_ == -1 ? 1.0 : x[dense_scale_id_]);
     if(gamma == 0.0) gamma = 1.0;
-- 
2.43.0


From 83f852e91c58ba22c00c1689e02ec4904c472cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 041/118] fix: the expected denominator was truncated to an
 integer, giving infinite or wrong gradients

---
 src/include/travatar/eval-measure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index 7734e68..c745528 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -72,7 +72,7 @@ public:
     virtual std::string GetIdString() const { return "AVG"; }
     // Getters
     Real GetVal() const { return vals_[0]; }
-    int GetDenom() const { return vals_[1]; }
+    Real GetDenom() const { return vals_[1]; }
 private:
 };
 
-- 
2.43.0


From afe8cf97d4d18d0ae0ed8f99e1a51a0a799f0ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 042/118] fix: the entropy term of the tuning objective had the
 opposite sign from its gradient

---
 src/lib/gradient-xeval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 71d755e..689cf8b 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -213,7 +213,7 @@ Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
             for(int k = 0; k < K; k++) {
                 Real my_log2 = max(LogZero(p_i_k[i][k])/log2,-REAL_MAX);
                 Real val = (my_log2 + 1) * p_i_k[i][k];
-                score += my_log2 * p_i_k[i][k] * ent_coeff_;
+                score -= my_log2 * p_i_k[i][k] * ent_coeff_;
                 for(int kprime = 0; kprime < K; kprime++)
                     ps[kprime] += val * ((kprime == k ? 1.0 : 0.0) - p_i_k[i][kprime]);
             }
-- 
2.43.0


From 8e2ea12d857bdc262b8fa1d18b33e9e8e1649667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 043/118] fix: the gradient of inverse TER pointed in the wrong
 direction

---
 src/include/travatar/eval-measure-ter.h | 1 +
 src/include/travatar/eval-measure.h     | 2 ++
 src/lib/gradient-xeval.cc               | 2 +-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/eval-measure-ter.h b/src/include/travatar/eval-measure-ter.h
index 98f3744..8bb247c 100644
--- a/src/include/travatar/eval-measure-ter.h
+++ b/src/include/travatar/eval-measure-ter.h
@@ -20,6 +20,7 @@ public:
         return inverse_ ? 1-score : score;
     }
     EvalStatsPtr Clone() const { return EvalStatsPtr(new EvalStatsTer(vals_[0], vals_[1], inverse_)); }
+    virtual Real GetSlope() const { return inverse_ ? -1.0 : 1.0; }
 protected:
     bool inverse_;
 };
diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index c745528..cb24460 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -73,6 +73,8 @@ public:
     // Getters
     Real GetVal() const { return vals_[0]; }
     Real GetDenom() const { return vals_[1]; }
+    // The change in the score when the average of the values changes by one
+    virtual Real GetSlope() const { return 1.0; }
 private:
 };
 
diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 689cf8b..de2e26e 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -39,7 +39,7 @@ void GradientXeval::CalcAvgGradient(
             EvalStatsAverage * stats_i_k_avg = (EvalStatsAverage*)all_stats_[i][k].get();
             PRINT_DEBUG("Stats i=" << i << ", k=" << k << ": " << stats_i_k_avg->ConvertToString() << endl, 4);
             // Calculate the derivative of xeval
-            Real d_xeval_logpik = p_i_k[i][k]*stats_i_k_avg->GetVal()/stats_avg->GetDenom();
+            Real d_xeval_logpik = p_i_k[i][k]*stats_i_k_avg->GetVal()/stats_avg->GetDenom()*stats_avg->GetSlope();
             // Now multiply this value for every k'
             for(int kprime = 0; kprime < K; kprime++)
                 d_xeval_dsikprime[kprime] += 
-- 
2.43.0


From 1d8549c208375f068581a4e12970d28a86436629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 044/118] fix: the gradient of smoothed BLEU also smoothed
 unigrams, unlike the score

---
 src/include/travatar/eval-measure-bleu.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/eval-measure-bleu.h b/src/include/travatar/eval-measure-bleu.h
index dac2f4a..8905cfb 100644
--- a/src/include/travatar/eval-measure-bleu.h
+++ b/src/include/travatar/eval-measure-bleu.h
@@ -49,9 +49,10 @@ public:
     Real GetAvgLogPrecision() const;
     Real GetLengthRatio() const;
     int GetNgramOrder() const { return vals_.size()/3; }
-    Real GetMatch(int n) const { return vals_[3*n]+smooth_; }
-    Real GetSysCount(int n) const { return vals_[3*n+1]+smooth_; }
-    Real GetRefCount(int n) const { return vals_[3*n+2]+smooth_; }
+    // Counts with smoothing, which is not done for unigrams
+    Real GetMatch(int n) const { return vals_[3*n]+(n == 0 ? 0 : smooth_); }
+    Real GetSysCount(int n) const { return vals_[3*n+1]+(n == 0 ? 0 : smooth_); }
+    Real GetRefCount(int n) const { return vals_[3*n+2]+(n == 0 ? 0 : smooth_); }
 private:
     Real smooth_;
     Real prec_weight_;
-- 
2.43.0


From 7f4b255706b0fffb7b520f9d9bbbe69824f61893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 045/118] fix: the gradient of BLEU ignored its precision
 weight, arithmetic mean and brevity options

---
 src/include/travatar/eval-measure-bleu.h |  4 ++++
 src/lib/gradient-xeval.cc                | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/eval-measure-bleu.h b/src/include/travatar/eval-measure-bleu.h
index 8905cfb..257c4fb 100644
--- a/src/include/travatar/eval-measure-bleu.h
+++ b/src/include/travatar/eval-measure-bleu.h
@@ -53,6 +53,10 @@ public:
     Real GetMatch(int n) const { return vals_[3*n]+(n == 0 ? 0 : smooth_); }
     Real GetSysCount(int n) const { return vals_[3*n+1]+(n == 0 ? 0 : smooth_); }
     Real GetRefCount(int n) const { return vals_[3*n+2]+(n == 0 ? 0 : smooth_); }
+    // The denominator of the precision/recall/F-measure
+    Real GetScoreDenom(int n) const { return prec_weight_ * GetSysCount(n) + (1-prec_weight_) * GetRefCount(n); }
+    BleuMean GetMean() const { return mean_; }
+    bool GetCalcBrevity() const { return calc_brev_; }
 private:
     Real smooth_;
     Real prec_weight_;
diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index de2e26e..2028e3e 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -68,18 +68,24 @@ void GradientXeval::CalcBleuGradient(
     // Overall stats
     EvalStatsBleu * stats_bleu = (EvalStatsBleu*)stats.get();
     int N = p_i_k.size();
-    Real P = stats_bleu->GetAvgLogPrecision();
-    Real eP = exp(P);
+    bool geometric = (stats_bleu->GetMean() == GEOMETRIC);
+    vector<Real> scores = stats_bleu->CalcBleuReport().scores;
+    // The (geometric or arithmetic) mean of the scores for each n-gram order
+    Real P = 0;
+    for(int n = 0; n < (int)scores.size(); n++)
+        P += (geometric ? LogZero(scores[n]) : scores[n]) / scores.size();
+    Real eP = (geometric ? exp(P) : P);
     Real R = 1.0/stats_bleu->GetLengthRatio();
     Real mR = 1-R;
     Real emR = exp(mR), e10kmR = std::min(REAL_MAX,exp(10000*mR));
     Real B = (emR-1)/(e10kmR+1) + 1;
     Real Bprime = (emR-(emR-1)*10000*(e10kmR/(1+e10kmR)))/(1+e10kmR);
+    if(!stats_bleu->GetCalcBrevity()) { B = 1; Bprime = 0; }
     // This is used in the calculation of dB/log(p_{i,k})
     PRINT_DEBUG("P=" << P << ", eP=" << eP << ", B=" << B << ", Bprime=" << Bprime << ", R=" << R << ", e10kmR="<<e10kmR<<", emR=" << emR << endl, 3);
     // The left and right constants
     Real left = eP * Bprime * -R;
-    Real right = eP * B / stats_bleu->GetNgramOrder();
+    Real right = (geometric ? eP : 1.0) * B / stats_bleu->GetNgramOrder();
     // The scaling constant and its
     Real gamma = (dense_scale_id_ == -1 ? 1.0 : x[dense_scale_id_]);
     if(gamma == 0.0) gamma = 1.0;
@@ -97,8 +103,9 @@ void GradientXeval::CalcBleuGradient(
             // Calculate the derivative of exp(P) with respect to log(p_{i,k})
             Real my_right = 0;
             for(int n = 0; n < stats_bleu->GetNgramOrder(); n++)
-                my_right += DivideZero(stats_i_k_bleu->GetMatch(n)*pik,stats_bleu->GetMatch(n)) -
-                            DivideZero(stats_i_k_bleu->GetSysCount(n)*pik,stats_bleu->GetSysCount(n));
+                my_right += (geometric ? 1.0 : scores[n]) *
+                            (DivideZero(stats_i_k_bleu->GetMatch(n)*pik,stats_bleu->GetMatch(n)) -
+                             DivideZero(stats_i_k_bleu->GetScoreDenom(n)*pik,stats_bleu->GetScoreDenom(n)));
             my_right *= right;
             PRINT_DEBUG("my_right: " << my_right << endl, 3);
             // Calculate the derivative of B with respect to log(p_{i,k})
-- 
2.43.0


From 9425f0cd2e8a6c1cfb19fd3eb26230a61440d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 046/118] fix: chart states of an empty string and of an
 unextendable one compared equal

---
 src/kenlm/lm/state.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kenlm/lm/state.hh b/src/kenlm/lm/state.hh
index f6c51d6..5709c15 100644
--- a/src/kenlm/lm/state.hh
+++ b/src/kenlm/lm/state.hh
@@ -56,14 +56,14 @@ inline uint64_t hash_value(const State &state, uint64_t seed = 0) {
 struct Left {
   bool operator==(const Left &other) const {
     return 
-      length == other.length &&
-      (!length || (pointers[length - 1] == other.pointers[length - 1] && full == other.full));
+      length == other.length && full == other.full &&
+      (!length || pointers[length - 1] == other.pointers[length - 1]);
   }
 
   int Compare(const Left &other) const {
     if (length < other.length) return -1;
     if (length > other.length) return 1;
-    if (length == 0) return 0; // Must be full.
+    if (length == 0) return (int)full - (int)other.full; // An empty string is not full.
     if (pointers[length - 1] > other.pointers[length - 1]) return 1;
     if (pointers[length - 1] < other.pointers[length - 1]) return -1;
     return (int)full - (int)other.full;
-- 
2.43.0


From fff709f2036af30e3e746065d72f6cfc49fd79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 047/118] fix: search vertices were copied with uninitialised
 flags

---
 src/kenlm/search/vertex.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kenlm/search/vertex.hh b/src/kenlm/search/vertex.hh
index 81c3cfe..5a35e52 100644
--- a/src/kenlm/search/vertex.hh
+++ b/src/kenlm/search/vertex.hh
@@ -24,7 +24,7 @@ struct HypoState {
 
 class VertexNode {
   public:
-    VertexNode() {}
+    VertexNode() : right_full_(false) { state_.left.full = false; }
 
     void InitRoot() { hypos_.clear(); }
 
-- 
2.43.0


From c5ec615cd25079746c4309d86fa025c13c3b33d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 048/118] fix: incremental search returned a partial forest, or
 read out of bounds, when nothing reaches the root

---
 src/lib/lm-composer-incremental.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 1082c19..0750127 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -265,7 +265,9 @@ HyperGraph * LMComposerIncremental::TransformGraphTemplate(const HyperGraph & pa
     vertices[0] = CalculateVertex(parse, vertices, context, best, 0);
 
     // Create the final vertex
-    CalculateRootVertex(vertices, context, best);
+    bool empty = vertices[0]->Empty();
+    if(!empty)
+        CalculateRootVertex(vertices, context, best);
 
     // Clear the memory
     BOOST_FOREACH(search::Vertex * vertex, vertices)
@@ -275,10 +277,10 @@ HyperGraph * LMComposerIncremental::TransformGraphTemplate(const HyperGraph & pa
     // Get the hypergraph and set words
     HyperGraph* ret = best.StealPointer();
     vector<HyperNode*> & nodes = ret->GetNodes();
-    // Swap the root into the first position
-    nodes[0] = nodes[nodes.size()-1];
-    nodes.resize(nodes.size()-1);
-    if(nodes[0] != NULL) {
+    // Swap the root into the first position, or return an empty graph if there is none
+    if(!empty) {
+        nodes[0] = nodes[nodes.size()-1];
+        nodes.resize(nodes.size()-1);
         nodes[0]->SetId(0);
     } else {
         delete ret;
-- 
2.43.0


From f8fd3d1f4ad103f9bd10d146615b0deb831fe1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 049/118] fix: incremental search attached the children of
 rules with cyclic reordering to the wrong variables

---
 src/lib/lm-composer-incremental.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 0750127..64846fc 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -58,17 +58,22 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
             wids = Sentence(1,-1);
             node_id = vector<WordId>(1);
         }
+        tails.resize(old_edge ? old_edge->GetTails().size() : 1, NULL);
+        // The vertices are in *target* order
+        int nt = 0;
         BOOST_FOREACH(WordId wid, wids) {
             if(wid < 0) {
                 int tid = -1-wid;
-                const PartialVertex & part = add.NT()[tid];
+                const PartialVertex & part = add.NT()[nt++];
                 HyperNode* child = (HyperNode*)part.End();
-                tails.push_back(child);
+                tails[tid] = child;
                 edge_score -= child->GetViterbiScore();
                 // Keep track of the node ID
                 node_id[tid] = child->GetId();
             }
         }
+        if(nt != (int)tails.size())
+            THROW_ERROR("Incremental search requires that every non-terminal is used once on the target side: " << *old_edge);
         // Skip duplicate edges
         if(node_memo.find(node_id) != node_memo.end())
             continue;
-- 
2.43.0


From 4d893764fa345f01963bf564924dcdb32746e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 050/118] fix: hashes of different chart states cancelled out,
 merging their hypotheses in incremental search

---
 src/kenlm/lm/state.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kenlm/lm/state.hh b/src/kenlm/lm/state.hh
index 5709c15..5c068f9 100644
--- a/src/kenlm/lm/state.hh
+++ b/src/kenlm/lm/state.hh
@@ -87,7 +87,8 @@ inline uint64_t hash_value(const Left &left) {
   unsigned char add[2];
   add[0] = left.length;
   add[1] = left.full;
-  return util::MurmurHashNative(add, 2, left.length ? left.pointers[left.length - 1] : 0);
+  // Hash the pointer first: as a plain seed a small one would cancel out with the length.
+  return util::MurmurHashNative(add, 2, left.length ? util::MurmurHashNative(left.pointers + left.length - 1, sizeof(uint64_t)) : 0);
 }
 
 struct ChartState {
-- 
2.43.0


From 9a7bdf64ef599e9ccbaaa283038dfed9b1fd386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 051/118] fix: let hiero phrases include the unaligned words
 after the last aligned source word

---
 src/lib/hiero-extractor.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 506e4b4..7f65060 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -36,7 +36,10 @@ bool HieroExtractor::IsRuleValid(HieroRule* rule, int max_terminals) {
 vector< vector<HieroRule*> > HieroExtractor::ExtractHieroRule(const Alignment & align, const Sentence & source, 
         const Sentence & target) const
 {
-    const SourceAlignment & src_align = align.GetSrcAlignments();
+    // The alignment stops at the last aligned word, so add the unaligned words after it
+    SourceAlignment src_align = align.GetSrcAlignments();
+    if(src_align.size() < source.size())
+        src_align.resize(source.size());
     vector< vector<HieroRule*> > ret;
     HieroExtractor::PhrasePairs filtered_pairs;
     HieroExtractor::PhrasePairs pairs;
@@ -115,9 +118,13 @@ vector< vector<HieroRule*> > HieroExtractor::ExtractHieroRule(const Alignment &
 
 // The implementation of phrase extraction algorithm.
 // The algorithm to extract all consistent phrase pairs from a word-aligned sentence pair
-HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment & s2t, const Sentence & source, 
+HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment & align, const Sentence & source, 
         const Sentence & target) const
 {
+    // The alignment stops at the last aligned word, so add the unaligned words after it
+    SourceAlignment s2t(align);
+    if(s2t.size() < source.size())
+        s2t.resize(source.size());
     vector<set<int> > t2s = vector<set<int> >();
     HieroExtractor::PhrasePairs ret = HieroExtractor::PhrasePairs();
 
-- 
2.43.0


From 5bcab4269baad548f026e5103f2b1bebf9f01c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 052/118] fix: do not extract hiero phrases that contain no
 alignment link

---
 src/lib/hiero-extractor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 7f65060..b76cdeb 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -147,6 +147,8 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
                 BOOST_FOREACH(int _t, s2t[s_end])
                     tp[_t]++;
             }
+            // Words that are all unaligned are not a phrase
+            if (tp.empty()) continue;
             int t_begin = MapMinKey(tp);
             int t_end = MapMaxKey(tp);
             if (QuasiConsecutive(t_begin,t_end,tp,t2s)) {
-- 
2.43.0


From 5ebe7e3a484c147b878d780ec4556e491663e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 053/118] fix: refuse hiero alignments outside of the sentences
 instead of writing out of bounds

---
 src/lib/hiero-extractor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index b76cdeb..b580094 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -134,8 +134,11 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
     }
     for (unsigned s=0; s < s2t.size(); ++s) {
         set<int> ts = s2t[s];
-        BOOST_FOREACH(int t, ts)
+        BOOST_FOREACH(int t, ts) {
+            if (s >= source.size() || t < 0 || t >= (int)target.size())
+                THROW_ERROR("Alignment " << s << "-" << t << " is outside of the sentences");
             t2s[t].insert((int)s);
+        }
     }
 
     // Phrase Extraction Algorithm 
-- 
2.43.0


From 94706a83095cc22345bf8f0ffed5c479504e595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 054/118] fix: keep all rules when the same source appears in
 several places of a rule table read into the marisa table

---
 src/lib/lookup-table-marisa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/lookup-table-marisa.cc b/src/lib/lookup-table-marisa.cc
index 248406a..f559163 100644
--- a/src/lib/lookup-table-marisa.cc
+++ b/src/lib/lookup-table-marisa.cc
@@ -68,7 +68,9 @@ LookupTableMarisa * LookupTableMarisa::ReadFromRuleTable(std::istream & in) {
         agent.set_query(str.c_str());
         if(!ret->GetTrie().lookup(agent))
             THROW_ERROR("Internal error when building rule table @ " << str);
-        main_rules[agent.key().id()] = my_rules;
+        // The same source may appear in several places of the table
+        RuleVec & id_rules = main_rules[agent.key().id()];
+        id_rules.insert(id_rules.end(), my_rules.begin(), my_rules.end());
     }
     return ret;
 }
-- 
2.43.0


From 1512e07fc23e57b107c48a412ad6c8b49dfe5869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 055/118] fix: build the target-labelled translation forest
 bottom-up whatever the order of the parse nodes

---
 src/include/travatar/lookup-table.h |  9 ------
 src/lib/lookup-table.cc             | 50 +++++++++++------------------
 2 files changed, 18 insertions(+), 41 deletions(-)

diff --git a/src/include/travatar/lookup-table.h b/src/include/travatar/lookup-table.h
index 623df4b..be69536 100644
--- a/src/include/travatar/lookup-table.h
+++ b/src/include/travatar/lookup-table.h
@@ -37,15 +37,6 @@ protected:
     std::string curr_string_;
 };
 
-typedef std::pair<std::vector<boost::shared_ptr<LookupState> >, const HyperNode*> SpannedState;
-
-// Class to compare State, basically comparison is based on the span length.
-// The shorter comes first.
-class SpannedStateComparator {
-public:
-    bool operator() (const SpannedState& lhs, const SpannedState& rhs) const;
-};
-
 // An implementation of a GraphTransformer that takes as input
 // a parse forest of the original sentence, looks up rules, and
 // outputs a rule graph in the target language
diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 4342e38..8bf8619 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -5,7 +5,7 @@
 #include <travatar/hyper-graph.h>
 #include <travatar/global-debug.h>
 #include <boost/foreach.hpp>
-#include <queue>
+#include <set>
 
 using namespace travatar;
 using namespace boost;
@@ -137,6 +137,15 @@ HyperGraph * LookupTable::TransformGraphSrc(const HyperGraph & parse) const {
     return ret;
 }
 
+// List the non-terminal nodes so that children always come before their parents
+static void ListBottomUp(const HyperNode * node, set<const HyperNode*> & done, vector<const HyperNode*> & list) {
+    if(node->IsTerminal() || !done.insert(node).second) return;
+    BOOST_FOREACH(const HyperEdge * edge, node->GetEdges())
+        BOOST_FOREACH(const HyperNode * tail, edge->GetTails())
+            ListBottomUp(tail, done, list);
+    list.push_back(node);
+}
+
 HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
     typedef map<vector<WordId>, HyperNode*> TargetMap;
     typedef map<int, TargetMap> NodeMap;
@@ -146,26 +155,20 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
     HyperGraph * ret = new HyperGraph;
     ret->SetWords(parse.GetWords());
     
-    priority_queue<SpannedState,vector<SpannedState>,SpannedStateComparator> lookups;
     vector<boost::shared_ptr<LookupState> > init_state;
     init_state.push_back(boost::shared_ptr<LookupState>(GetInitialState()));
-    BOOST_REVERSE_FOREACH(const HyperNode * node, parse.GetNodes()) {
-        if(!node->IsTerminal()) {
-            lookups.push(make_pair(LookupSrc(*node, init_state),node));
-        } 
-    }
+    vector<const HyperNode*> input_nodes;
+    set<const HyperNode*> listed_nodes;
+    BOOST_FOREACH(const HyperNode * node, parse.GetNodes())
+        ListBottomUp(node, listed_nodes, input_nodes);
 
     NodeMap node_map;
     GeneralMap general_map;
-    // Starting from the shorter span (construct the hypergraph from bottom to top)
-    while (!lookups.empty()) {
-        // Next State
-        const SpannedState spanned_state = lookups.top();
-        lookups.pop();
-        const HyperNode* input_node = spanned_state.second;
-        // Expand This state
+    // Construct the hypergraph from bottom to top
+    BOOST_FOREACH (const HyperNode* input_node, input_nodes) {
+        // Expand the states matching this node
         TargetMap indexed_head;
-        BOOST_FOREACH (const boost::shared_ptr<LookupState> & state, spanned_state.first) {
+        BOOST_FOREACH (const boost::shared_ptr<LookupState> & state, LookupSrc(*input_node, init_state)) {
             std::vector<const HyperNode*> non_terms = state->GetNonterms();
             BOOST_FOREACH (const TranslationRule * rule, *FindRules(*state)) {
                 CfgDataVector trg_data = rule->GetTrgData();
@@ -305,20 +308,3 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
 
 
 const TranslationRule * LookupTable::GetUnknownRule() const { return &unk_rule_; }
-
-bool SpannedStateComparator::operator() (const SpannedState& lhs, const SpannedState& rhs) const {
-    pair<int,int> p1 = lhs.second->GetSpan();
-    pair<int,int> p2 = rhs.second->GetSpan();
-    int result = (p1.second - p1.first) - (p2.second - p2.first);
-    if (result == 0) {
-        result = (p1.second - p2.second);
-        if (result == 0) {
-            int node1 = lhs.second->GetId();
-            int node2 = rhs.second->GetId();
-            result = (node1 - node2) < 0;
-        } else {
-            result = result > 0;
-        }
-    }
-    return result > 0;
-}
-- 
2.43.0


From fa1e18777875e2be681e0187c2ecb5779df1481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 056/118] fix: give ambiguous one-word nodes unknown edges in
 the target-labelled translation forest instead of following words

---
 src/lib/lookup-table.cc | 62 ++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 8bf8619..7b86d5c 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -253,43 +253,35 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
         // according to input tree
         // it we match all unk, connect the parse state regardlessly
         if (indexed_head.size() == (size_t) 0 || match_all_unk_) {
-            // Adding the tail to other parse state
-            if (input_node->IsPreTerminal()) {
-                // Translating the node to itself
-                HyperEdge* idem = new HyperEdge(parse_node);
-                WordId word = parse.GetWord(input_node->GetSpan().first);
+            BOOST_FOREACH(HyperEdge* edge, input_node->GetEdges()) {
+                HyperEdge * parse_edge = new HyperEdge(parse_node);
                 ostringstream oss;
-                if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ( \"" << Dict::WSym(word) << "\" )";
-                vector<WordId> trg_words(1, word);
-                CfgDataVector trg_data(GlobalVars::trg_factors, trg_words);
-                idem->SetRule(GetUnknownRule(), input_node->GetEdge(0)->GetFeatures());
-                idem->SetTrgData(trg_data);
-                if (save_src_str_) idem->SetSrcStr(oss.str());
-                parse_node->AddEdge(idem);
-                ret->AddEdge(idem);
-            } else {
-                BOOST_FOREACH(HyperEdge* edge, input_node->GetEdges()) {
-                    HyperEdge * parse_edge = new HyperEdge(parse_node);
-                    ostringstream oss;
-                    if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ("; 
-                    vector<WordId> trg(edge->GetTails().size());
-                    for (size_t i=0; i < trg.size(); ++i) {
-                        if(save_src_str_) oss << " x" << i << ':' << Dict::WSym(edge->GetTail(i)->GetSym()); 
-                        trg[i] = -1 - i;
-                    }
-                    parse_edge->SetRule(GetUnknownRule(), edge->GetFeatures());
-                    parse_edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors,trg));
-                    BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
-                        HyperNode* child = general_map.find(tail->GetId())->second;
-                        parse_edge->AddTail(child);
-                    }
-                    if (save_src_str_) {
-                        oss << " )";
-                        parse_edge->SetSrcStr(oss.str());
-                    }
-                    parse_node->AddEdge(parse_edge);
-                    ret->AddEdge(parse_edge);
+                if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " (";
+                parse_edge->SetRule(GetUnknownRule(), edge->GetFeatures());
+                // Adding the tail to other parse state
+                BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
+                    if(tail->IsTerminal()) continue;
+                    if (save_src_str_) oss << " x" << parse_edge->GetTails().size() << ':' << Dict::WSym(tail->GetSym());
+                    parse_edge->AddTail(general_map.find(tail->GetId())->second);
+                }
+                vector<WordId> trg(parse_edge->GetTails().size());
+                for (size_t i=0; i < trg.size(); ++i)
+                    trg[i] = -1 - i;
+                // Translating the node to itself
+                if (trg.size() == 0) {
+                    pair<int,int> span = input_node->GetSpan();
+                    if(span.second - span.first != 1)
+                        THROW_ERROR("Multi-terminal edges are not supported.");
+                    trg.push_back(parse.GetWord(span.first));
+                    if (save_src_str_) oss << " \"" << Dict::WSym(trg[0]) << "\"";
+                }
+                parse_edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors,trg));
+                if (save_src_str_) {
+                    oss << " )";
+                    parse_edge->SetSrcStr(oss.str());
                 }
+                parse_node->AddEdge(parse_edge);
+                ret->AddEdge(parse_edge);
             }
         }
         general_map.insert(make_pair(input_node->GetId(), parse_node));
-- 
2.43.0


From caf4e32c5763f234c0b17f20e0afad1837af1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 057/118] fix: ignore rule sources that go on after a complete
 tree instead of crashing when their start matches

---
 src/include/travatar/lookup-table.h |  4 ++++
 src/lib/lookup-table.cc             | 16 ++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/include/travatar/lookup-table.h b/src/include/travatar/lookup-table.h
index be69536..c116c05 100644
--- a/src/include/travatar/lookup-table.h
+++ b/src/include/travatar/lookup-table.h
@@ -52,6 +52,10 @@ public:
             const HyperNode & node, 
             const std::vector<boost::shared_ptr<LookupState> > & old_states) const;
 
+    // Find the states rooted at a particular node that match whole rules, not only
+    // the start of a longer source pattern
+    std::vector<boost::shared_ptr<LookupState> > LookupRules(const HyperNode & node) const;
+
     // Find rules associated with a particular source pattern
     virtual const std::vector<TranslationRule*> * FindRules(const LookupState & state) const = 0;
 
diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 7b86d5c..0773c0d 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -49,6 +49,14 @@ vector<boost::shared_ptr<LookupState> > LookupTable::LookupSrc(
     return ret_states;
 }
 
+vector<boost::shared_ptr<LookupState> > LookupTable::LookupRules(const HyperNode & node) const {
+    vector<boost::shared_ptr<LookupState> > init_state(1, boost::shared_ptr<LookupState>(GetInitialState())), ret;
+    BOOST_FOREACH(const boost::shared_ptr<LookupState> & state, LookupSrc(node, init_state))
+        if(FindRules(*state) != NULL)
+            ret.push_back(state);
+    return ret;
+}
+
 HyperGraph * LookupTable::TransformGraph(const HyperGraph & parse) const {
     if (consider_trg_) {
         return TransformGraphSrcTrg(parse);
@@ -64,8 +72,6 @@ HyperGraph * LookupTable::TransformGraphSrc(const HyperGraph & parse) const {
     ret->SetWords(parse.GetWords());
     std::map<int,int> node_map, rev_node_map;
     vector<vector<boost::shared_ptr<LookupState> > > lookups;
-    vector<boost::shared_ptr<LookupState> > init_state;
-    init_state.push_back(boost::shared_ptr<LookupState>(GetInitialState()));
     BOOST_FOREACH(const HyperNode * node, parse.GetNodes()) {
         if(!node->IsTerminal()) {
             rev_node_map.insert(make_pair(node_map.size(), node->GetId()));
@@ -74,7 +80,7 @@ HyperGraph * LookupTable::TransformGraphSrc(const HyperGraph & parse) const {
             ret->AddNode(next_node);
             next_node->SetSym(node->GetSym());
             next_node->SetSpan(node->GetSpan());
-            lookups.push_back(LookupSrc(*node, init_state));
+            lookups.push_back(LookupRules(*node));
         }
     }
     // For each node
@@ -155,8 +161,6 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
     HyperGraph * ret = new HyperGraph;
     ret->SetWords(parse.GetWords());
     
-    vector<boost::shared_ptr<LookupState> > init_state;
-    init_state.push_back(boost::shared_ptr<LookupState>(GetInitialState()));
     vector<const HyperNode*> input_nodes;
     set<const HyperNode*> listed_nodes;
     BOOST_FOREACH(const HyperNode * node, parse.GetNodes())
@@ -168,7 +172,7 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
     BOOST_FOREACH (const HyperNode* input_node, input_nodes) {
         // Expand the states matching this node
         TargetMap indexed_head;
-        BOOST_FOREACH (const boost::shared_ptr<LookupState> & state, LookupSrc(*input_node, init_state)) {
+        BOOST_FOREACH (const boost::shared_ptr<LookupState> & state, LookupRules(*input_node)) {
             std::vector<const HyperNode*> non_terms = state->GetNonterms();
             BOOST_FOREACH (const TranslationRule * rule, *FindRules(*state)) {
                 CfgDataVector trg_data = rule->GetTrgData();
-- 
2.43.0


From d94d892eecac1f04638a0c17af6d3e512e78fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 058/118] fix: refuse hiero rules with an unlabelled last
 non-terminal instead of reading past its symbols

---
 src/lib/rule-fsm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 69afd1a..e7737bf 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -41,7 +41,7 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
         if(src_data.words.size() == 0)
             THROW_ERROR("Empty sources in a rule are not allowed: " << endl << line);
         BOOST_FOREACH(WordId srcid, src_data.words)
-            if(-1 - srcid > (int)src_data.syms.size())
+            if(-1 - srcid >= (int)src_data.syms.size())
                 THROW_ERROR("Non-terminal ID is larger than number of symbols: " << endl << line);
 
         string key_str = CreateKey(src_data, trg_data);
-- 
2.43.0


From fbc033b68361dfc421988076ba69f63f683fe8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 059/118] fix: detect unary cycles of two or more rules in CFG
 grammars

---
 src/lib/rule-fsm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index e7737bf..0675439 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -64,7 +64,7 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
                 UnaryMap::iterator it = unaries.find(target);
                 if(it != unaries.end()) {
                     BOOST_FOREACH(const HieroHeadLabels & second_trg, it->second) {
-                        set<HieroHeadLabels>::iterator it2 = val.second.find(target);
+                        set<HieroHeadLabels>::iterator it2 = val.second.find(second_trg);
                         if(it2 == val.second.end()) {
                             added = true;
                             val.second.insert(second_trg);
-- 
2.43.0


From 72a611b4cb151726c46b72cce1017503874bdff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 060/118] fix: parse with several grammars independently of
 their order and refuse unary cycles across them

---
 src/include/travatar/lookup-table-fsm.h |   4 +-
 src/include/travatar/rule-fsm.h         |  14 +++
 src/lib/lookup-table-fsm.cc             |  28 ++++-
 src/lib/rule-fsm.cc                     | 157 +++++++++++++-----------
 4 files changed, 126 insertions(+), 77 deletions(-)

diff --git a/src/include/travatar/lookup-table-fsm.h b/src/include/travatar/lookup-table-fsm.h
index 848aa98..5ab43a2 100644
--- a/src/include/travatar/lookup-table-fsm.h
+++ b/src/include/travatar/lookup-table-fsm.h
@@ -62,9 +62,7 @@ public:
     LookupTableFSM();
     ~LookupTableFSM();
 
-    void AddRuleFSM(RuleFSM* fsm) {
-        rule_fsms_.push_back(fsm);
-    }
+    void AddRuleFSM(RuleFSM* fsm);
 
     // Transform a graph of words into a hiero graph
     virtual HyperGraph * TransformGraph(const HyperGraph & graph) const;
diff --git a/src/include/travatar/rule-fsm.h b/src/include/travatar/rule-fsm.h
index c08a588..8c4f6ac 100644
--- a/src/include/travatar/rule-fsm.h
+++ b/src/include/travatar/rule-fsm.h
@@ -72,6 +72,20 @@ protected:
     void BuildHyperGraphComponent(HieroNodeMap & node_map, EdgeList & edge_set,
         const Sentence & input, const std::string & state, int position, HieroRuleSpans & spans) const;
 
+    // Match the rules continuing from a state with the word at this position
+    void BuildFromWord(HieroNodeMap & node_map, EdgeList & edge_set,
+        const Sentence & input, const std::string & state, int position, HieroRuleSpans & spans) const;
+
+    // Match the rules continuing from a state with the nodes over [position,next_pos)
+    void BuildFromNonterm(HieroNodeMap & node_map, EdgeList & edge_set,
+        const Sentence & input, const std::string & state, int position, int next_pos, HieroRuleSpans & spans) const;
+
+    // Add nodes for the unary rules that apply over [position,next_pos), returns whether there were any new ones
+    bool AddUnaryNodes(HieroNodeMap & node_map, int position, int next_pos) const;
+
+    // Close a unary map over sequences of rules, throwing an error for cycles
+    static void ExpandUnaries(UnaryMap & unaries);
+
     static std::string CreateKey(const CfgData & src_data,
                                  const std::vector<CfgData> & trg_data);
 private:
diff --git a/src/lib/lookup-table-fsm.cc b/src/lib/lookup-table-fsm.cc
index 2af3aba..826e1da 100644
--- a/src/lib/lookup-table-fsm.cc
+++ b/src/lib/lookup-table-fsm.cc
@@ -95,6 +95,16 @@ TranslationRuleHiero* LookupTableFSM::GetUnknownRule(WordId src, WordId unknown_
     );
 }
 
+void LookupTableFSM::AddRuleFSM(RuleFSM* fsm) {
+    rule_fsms_.push_back(fsm);
+    // Unary cycles are not allowed over several grammars either
+    UnaryMap unaries;
+    BOOST_FOREACH(const RuleFSM* rule_fsm, rule_fsms_)
+        BOOST_FOREACH(const UnaryMap::value_type & val, rule_fsm->GetUnaryMap())
+            unaries[val.first].insert(val.second.begin(), val.second.end());
+    RuleFSM::ExpandUnaries(unaries);
+}
+
 LookupTableFSM * LookupTableFSM::ReadFromFiles(const std::vector<std::string> & filenames) {
     LookupTableFSM * ret = new LookupTableFSM;
     BOOST_FOREACH(const std::string & filename, filenames) {
@@ -186,9 +196,23 @@ HyperGraph * LookupTableFSM::TransformGraph(const HyperGraph & graph) const {
             // Add a size 0 node for unknown words
             RuleFSM::FindNode(node_map, i, i+1, unk_symbol_);
         }
-        // For each grammar, add rules
+        // For each grammar, add rules starting with words, then those starting with
+        // non-terminals from short to long spans, so that every grammar sees the nodes
+        // created by the others
         BOOST_FOREACH(RuleFSM* rule_fsm, rule_fsms_)
-            rule_fsm->BuildHyperGraphComponent(node_map, edge_list, sent, "", i, span);
+            rule_fsm->BuildFromWord(node_map, edge_list, sent, "", i, span);
+        for(int j = i+1; j <= (int)sent.size(); j++) {
+            bool added = true;
+            while(added) {
+                added = false;
+                BOOST_FOREACH(RuleFSM* rule_fsm, rule_fsms_)
+                    if(j-i <= rule_fsm->GetSpanLimit() && rule_fsm->AddUnaryNodes(node_map, i, j))
+                        added = true;
+            }
+            BOOST_FOREACH(RuleFSM* rule_fsm, rule_fsms_)
+                if(j-i <= rule_fsm->GetSpanLimit())
+                    rule_fsm->BuildFromNonterm(node_map, edge_list, sent, "", i, j, span);
+        }
     }
 
     // Add rules for unknown words
diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 0675439..b1ee886 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -54,6 +54,26 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
         keyset.push_back(rule.first.c_str(), rule.first.length());
 
     // Expand unary values
+    ExpandUnaries(unaries);
+    // Compile the marisa trie
+    ret->GetTrie().build(keyset);
+    // Insert the rule arrays into the appropriate position based on the tree ID
+    RuleSet & main_rules = ret->GetRules();
+    main_rules.resize(keyset.size());
+    BOOST_FOREACH(RuleMap::value_type & rule, rules) {
+        marisa::Agent agent;
+        agent.set_query(rule.first.c_str(), rule.first.length());
+        // cerr << "Adding agent: " << CFGPath::PrintAgent(agent) << endl;
+        if(!ret->GetTrie().lookup(agent))
+            THROW_ERROR("Internal error when building rule table");
+        main_rules[agent.key().id()].swap(rule.second);
+        // BOOST_FOREACH(TranslationRuleHiero * hier, main_rules[agent.key().id()])
+        //     cerr << "RULE: " << PrintState(rule.first) << " @ "<<agent.key().id()<<": " << *hier << endl;
+    }
+    return ret;
+}
+
+void RuleFSM::ExpandUnaries(UnaryMap & unaries) {
     bool added = true;
     while(added) {
         added = false;
@@ -74,22 +94,6 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
             }
         }
     }
-    // Compile the marisa trie
-    ret->GetTrie().build(keyset);
-    // Insert the rule arrays into the appropriate position based on the tree ID
-    RuleSet & main_rules = ret->GetRules();
-    main_rules.resize(keyset.size());
-    BOOST_FOREACH(RuleMap::value_type & rule, rules) {
-        marisa::Agent agent;
-        agent.set_query(rule.first.c_str(), rule.first.length());
-        // cerr << "Adding agent: " << CFGPath::PrintAgent(agent) << endl;
-        if(!ret->GetTrie().lookup(agent))
-            THROW_ERROR("Internal error when building rule table");
-        main_rules[agent.key().id()].swap(rule.second);
-        // BOOST_FOREACH(TranslationRuleHiero * hier, main_rules[agent.key().id()])
-        //     cerr << "RULE: " << PrintState(rule.first) << " @ "<<agent.key().id()<<": " << *hier << endl;
-    }
-    return ret;
 }
 
 void RuleFSM::BuildHyperGraphComponent(
@@ -101,8 +105,21 @@ void RuleFSM::BuildHyperGraphComponent(
         HieroRuleSpans & spans) const {
     if (position >= (int)input.size())
         return;
-
     // First, match single words
+    BuildFromWord(node_map, edge_list, input, state, position, spans);
+    // Continue until the end of the sentence or the max span length
+    int until = min((int)input.size(), position+span_length_);
+    for(int next_pos = position+1; next_pos <= until; next_pos++)
+        BuildFromNonterm(node_map, edge_list, input, state, position, next_pos, spans);
+}
+
+void RuleFSM::BuildFromWord(
+        HieroNodeMap & node_map, 
+        EdgeList & edge_list, 
+        const Sentence & input,
+        const string & state,
+        int position, 
+        HieroRuleSpans & spans) const {
     string next_state = state;
     next_state.append((char*)&input[position], sizeof(WordId));
     marisa::Agent agent;
@@ -126,67 +143,63 @@ void RuleFSM::BuildHyperGraphComponent(
         // Recurse to match the following rules
         BuildHyperGraphComponent(node_map, edge_list, input, next_state, position+1, rule_span_next);
     }
+}
 
-    // Continue until the end of the sentence or the max span length
-    int until = min((int)input.size(), position+span_length_);
-    for(int next_pos = position+1; next_pos <= until; next_pos++) {
-        pair<int,int> span(position,next_pos);
-        // If this is the root, ensure unary nodes are expanded
-        if(state.length() == 0) {
-            set<HieroHeadLabels> next_set;
-            int last_size;
-            do {
-                last_size = next_set.size();
-                BOOST_FOREACH(const UnaryMap::value_type & val, unaries_) {
-                    HieroNodeMap::iterator it = node_map.find(span);
-                    if(it != node_map.end()) {
-                        if(it->second.find(val.first) != it->second.end()) {
-                            BOOST_FOREACH(HieroHeadLabels child_lab, val.second) {
-                                next_set.insert(child_lab);
-                                RuleFSM::FindNode(node_map, position, next_pos, child_lab);
-                            }
-                        }
-                    }
-                }
-            } while(last_size != (int)next_set.size());
-        }
-        // Find nodes that match the current span
-        HieroNodeMap::iterator node_it = node_map.find(span);
-        if(node_it == node_map.end()) continue;
-        // Build every node
-        HieroRuleSpans rule_span_next = HieroRuleSpans(spans);
-        rule_span_next.push_back(span);
-        BOOST_FOREACH(const HeadNodePairs::value_type & heads_node, node_it->second) {
-            vector<WordId> sym(heads_node.first);
-            BOOST_FOREACH(WordId & wid, sym)
-                wid = -1-wid;
-            string next_state = state;
-            next_state.append((char*)&sym[0], sizeof(WordId)*sym.size());
-            marisa::Agent agent;
-            agent.set_query(next_state.c_str(), next_state.length());
-            // cerr << " Searching nonterm " <<  PrintState(state) << "->" << PrintState(next_state) << endl;
-            if(trie_.predictive_search(agent)) {
-                // cerr << " FOUND NONTERM " <<  PrintState(state) << "->" << PrintState(next_state) << endl;
-                // // TODO: Maybe we need to do something with unks?
-                // if(span.second - span.first == 1 && node_it->second.find(sym) == node_it->second.end()) {
-                //     cerr << "Adding unknown node @ " << span.first << ":" << span.second << ", " << sym << endl;
-                //     RuleFSM::FindNode(node_map, span.first, span.second, sym);
-                // }
-                // If this exactly matched a rule add the rules
-                marisa::Agent agent_exact;
-                agent_exact.set_query(next_state.c_str(), next_state.length());
-                if(trie_.lookup(agent_exact)) {
-                    BOOST_FOREACH(TranslationRuleHiero* rule, rules_[agent_exact.key().id()]) {
-                        // cerr << "Matched nonterm: " << *rule << endl;
-                        edge_list.push_back(RuleFSM::TransformRuleIntoEdge(rule, rule_span_next, node_map, save_src_str_));
-                    }
+void RuleFSM::BuildFromNonterm(
+        HieroNodeMap & node_map, 
+        EdgeList & edge_list, 
+        const Sentence & input,
+        const string & state,
+        int position, 
+        int next_pos, 
+        HieroRuleSpans & spans) const {
+    pair<int,int> span(position,next_pos);
+    // Find nodes that match the current span
+    HieroNodeMap::iterator node_it = node_map.find(span);
+    if(node_it == node_map.end()) return;
+    // Build every node
+    HieroRuleSpans rule_span_next = HieroRuleSpans(spans);
+    rule_span_next.push_back(span);
+    BOOST_FOREACH(const HeadNodePairs::value_type & heads_node, node_it->second) {
+        vector<WordId> sym(heads_node.first);
+        BOOST_FOREACH(WordId & wid, sym)
+            wid = -1-wid;
+        string next_state = state;
+        next_state.append((char*)&sym[0], sizeof(WordId)*sym.size());
+        marisa::Agent agent;
+        agent.set_query(next_state.c_str(), next_state.length());
+        // cerr << " Searching nonterm " <<  PrintState(state) << "->" << PrintState(next_state) << endl;
+        if(trie_.predictive_search(agent)) {
+            // cerr << " FOUND NONTERM " <<  PrintState(state) << "->" << PrintState(next_state) << endl;
+            // // TODO: Maybe we need to do something with unks?
+            // if(span.second - span.first == 1 && node_it->second.find(sym) == node_it->second.end()) {
+            //     cerr << "Adding unknown node @ " << span.first << ":" << span.second << ", " << sym << endl;
+            //     RuleFSM::FindNode(node_map, span.first, span.second, sym);
+            // }
+            // If this exactly matched a rule add the rules
+            marisa::Agent agent_exact;
+            agent_exact.set_query(next_state.c_str(), next_state.length());
+            if(trie_.lookup(agent_exact)) {
+                BOOST_FOREACH(TranslationRuleHiero* rule, rules_[agent_exact.key().id()]) {
+                    // cerr << "Matched nonterm: " << *rule << endl;
+                    edge_list.push_back(RuleFSM::TransformRuleIntoEdge(rule, rule_span_next, node_map, save_src_str_));
                 }
-                // Recurse to match the next node
-                BuildHyperGraphComponent(node_map, edge_list, input, next_state, next_pos, rule_span_next);
             }
+            // Recurse to match the next node
+            BuildHyperGraphComponent(node_map, edge_list, input, next_state, next_pos, rule_span_next);
         }
     }
+}
 
+bool RuleFSM::AddUnaryNodes(HieroNodeMap & node_map, int position, int next_pos) const {
+    HieroNodeMap::iterator it = node_map.find(make_pair(position,next_pos));
+    if(it == node_map.end()) return false;
+    size_t last_size = it->second.size();
+    BOOST_FOREACH(const UnaryMap::value_type & val, unaries_)
+        if(it->second.find(val.first) != it->second.end())
+            BOOST_FOREACH(const HieroHeadLabels & head_lab, val.second)
+                RuleFSM::FindNode(node_map, position, next_pos, head_lab);
+    return it->second.size() != last_size;
 }
 
 HyperEdge* RuleFSM::TransformRuleIntoEdge(TranslationRuleHiero* rule, const HieroRuleSpans & rule_span,
-- 
2.43.0


From f52803156ea81c1fd9eb2e02fc6db39e6f951548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 061/118] fix: apply unary rules to all states of a CFG chart
 node when parsing with a language model

---
 src/include/travatar/lookup-table-cfglm.h |  1 +
 src/lib/lookup-table-cfglm.cc             | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/include/travatar/lookup-table-cfglm.h b/src/include/travatar/lookup-table-cfglm.h
index d9ed13c..a53bedc 100644
--- a/src/include/travatar/lookup-table-cfglm.h
+++ b/src/include/travatar/lookup-table-cfglm.h
@@ -32,6 +32,7 @@ public:
         return GetHypScore(label, pos) - GetHypScore(label, pos-1);
     }
 
+    int NumStatefulNodes(const HieroHeadLabels & label) const;
     const StatefulNode & GetStatefulNode(const HieroHeadLabels & label, int pos) const;
     void AddStatefulNode(const HieroHeadLabels & label, HyperNode* node, const std::vector<lm::ngram::ChartState> & state);
     void FinalizeNodes();
diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index ac9cedb..8903468 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -50,6 +50,11 @@ Real CFGChartItem::GetHypScore(const HieroHeadLabels & label, int pos) const {
 }
 
 
+int CFGChartItem::NumStatefulNodes(const HieroHeadLabels & label) const {
+    StatefulNodeMap::const_iterator it = nodes_.find(label);
+    return it != nodes_.end() ? it->second.size() : 0;
+}
+
 void CFGChartItem::AddStatefulNode(const HieroHeadLabels & label, HyperNode* node, const std::vector<lm::ngram::ChartState> & state) {
     nodes_[label].push_back(new StatefulNode(node, state));
 }
@@ -257,8 +262,9 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
         // Add the hypothesis to the hypergraph
         RecombIndex ridx = make_pair(rule->GetHeadLabels(), my_state);
         RecombMap::iterator rit = recomb_map.find(ridx);
+        bool new_node = (rit == recomb_map.end());
         ret.AddEdge(next_edge);
-        if(rit != recomb_map.end()) {
+        if(!new_node) {
             rit->second->AddEdge(next_edge);
             next_edge->SetHead(rit->second);
         } else {
@@ -271,8 +277,8 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
             node->AddEdge(next_edge);
             recomb_map.insert(make_pair(ridx, node));
         }
-        // Advance the hypothesis
-        for(size_t j = 0; j < path->size(); j++) {
+        // Advance the hypothesis (for unary rules, every node in this cell is already queued when it is created)
+        for(size_t j = 0; id_str[0] >= 0 && j < path->size(); j++) {
             const pair<int,int> & my_span = (*path)[j];
             Real my_score = top_score + chart[my_span.first*N + my_span.second].GetHypScoreDiff(rule->GetChildHeadLabels(j), id_str[j+1]+1);
             if(my_score > -REAL_MAX/2) {
@@ -280,11 +286,11 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
                 hypo_queue.push(make_pair(my_score, pos));
             }
         }
-        // If unary rules exist
+        // If a node was created, apply the unary rules to it
         UnaryIds::const_iterator uit = unary_ids_.find(rule->GetHeadLabels());
-        if(uit != unary_ids_.end()) {
+        if(new_node && uit != unary_ids_.end()) {
             BOOST_FOREACH(int urid, uit->second) {
-                vector<int> pos(2); pos[0] = -1-urid; pos[1] = 0;
+                vector<int> pos(2); pos[0] = -1-urid; pos[1] = chart[id].NumStatefulNodes(rule->GetHeadLabels())-1;
                 // TODO: Recalculating the features for unary rules every time is extremely wasteful. Do something.
                 Real my_score = top_score + weights_->GetCurrent() * unary_rules_[urid]->GetFeatures();
                 hypo_queue.push(make_pair(my_score, pos));
-- 
2.43.0


From 9dc190af600256267378c8a5dfb6566b6aaeb4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 062/118] fix: do not read outside of the chart when parsing an
 empty sentence with a language model

---
 src/lib/lookup-table-cfglm.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index 8903468..356e328 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -311,6 +311,8 @@ HyperGraph * LookupTableCFGLM::TransformGraph(const HyperGraph & graph) const {
        
     Sentence sent = graph.GetWords();
     int N = sent.size();
+    // There is nothing to parse in an empty sentence
+    if(N == 0) return ret;
     vector<CFGChartItem> chart(N*N);
     vector<CFGCollection> collections(N*N);
     CFGPath root_path;
-- 
2.43.0


From 160e34b5e2bb1aec25d730449d57bd25474e125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 063/118] fix: trim the output forest when forest_nbest_trim is
 given

---
 src/lib/travatar-runner.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index a5f49e5..dbe3a7b 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -361,7 +361,6 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Get the class to trim the forest if necessary
-    scoped_ptr<Trimmer> trimmer_;
     if(config.GetInt("forest_nbest_trim") != 0)
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
-- 
2.43.0


From 068fe85dec94675268938520eda7486fd49a8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 064/118] fix: do not delete the standard streams when the
 n-best list or trace is written to them

---
 src/lib/travatar-runner.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index dbe3a7b..0b47805 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -174,6 +174,9 @@ void TravatarRunnerTask::Run() {
 }
 
 
+// Standard streams are not ours to delete
+static void NoDelete(ostream *) { }
+
 // Run the model
 void TravatarRunner::Run(const ConfigTravatarRunner & config) {
 
@@ -333,13 +336,13 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Open the n-best output stream if it exists
-    scoped_ptr<ostream> nbest_out;
+    boost::shared_ptr<ostream> nbest_out;
     scoped_ptr<OutputCollector> nbest_collector;
     if(config.GetString("nbest_out") != "") {
         if (config.GetString("nbest_out") == "STDOUT") {
-            nbest_out.reset(&cout);
+            nbest_out.reset(&cout, NoDelete);
         } else if (config.GetString("nbest_out") == "STDERR") {
-            nbest_out.reset(&cerr);
+            nbest_out.reset(&cerr, NoDelete);
         } else {
             nbest_out.reset(new ofstream(config.GetString("nbest_out").c_str()));
         }
@@ -365,13 +368,13 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
     // Open the trace output stream if it exists
-    scoped_ptr<ostream> trace_out;
+    boost::shared_ptr<ostream> trace_out;
     scoped_ptr<OutputCollector> trace_collector;
     if(config.GetString("trace_out") != "") {
         if (config.GetString("trace_out") == "STDOUT") {
-            trace_out.reset(&cout);
+            trace_out.reset(&cout, NoDelete);
         } else if (config.GetString("trace_out") == "STDERR") {
-            trace_out.reset(&cerr);
+            trace_out.reset(&cerr, NoDelete);
         } else {
             trace_out.reset(new ofstream(config.GetString("trace_out").c_str()));
         }
-- 
2.43.0


From 93d4cdebf0e357e7edbba402e6e0dd97c9608450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 065/118] fix: substitute the sources of the whole derivation,
 and nothing else, in the tree of an n-best entry

---
 src/include/travatar/hyper-graph.h |  1 +
 src/lib/hyper-graph.cc             | 41 ++++++++++++++++++++----------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index b060492..b286926 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -292,6 +292,7 @@ public:
     bool operator!=(const HyperPath & rhs) const { return !(*this == rhs); }
     void Print(std::ostream & out) const;
     std::string GetTreeStr() const;
+    std::string GetTreeStr(int & idx) const;
 
 protected:
     // The edges contrained in this translation
diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index cf8c1af..ce859ed 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -1,7 +1,6 @@
 #include <queue>
 #include <map>
 #include <boost/shared_ptr.hpp>
-#include <boost/regex.hpp>
 #include <lm/left.hh>
 #include <lm/model.hh>
 #include <travatar/weights.h>
@@ -399,20 +398,36 @@ void HyperPath::Print(std::ostream & out) const {
 }
 
 
-std::string HyperPath::GetTreeStr() const{
-    if ((int)edges_.size() < 1) return "";
-
-    string tree = edges_[1]->GetSrcStr();
-    boost::regex e ("\\bx[0-9]:(.*?) ");
-    boost::smatch m;
-    for(int i = 2; i < (int)edges_.size(); i++){
-       string nextTree = edges_[i]->GetSrcStr() + " ";
-       if(boost::regex_search(tree, m, e) == true){
-           tree = boost::regex_replace(tree, e, nextTree, boost::format_first_only);
-       }
+// Find the source string of a path from an edge on. Edges without a source
+// string (the root added by language model composition) are passed through.
+std::string HyperPath::GetTreeStr(int & idx) const {
+    const HyperEdge * edge = edges_[idx++];
+    vector<string> children;
+    for(size_t i = 0; i < edge->GetTails().size(); i++)
+        children.push_back(GetTreeStr(idx));
+    if(edge->GetSrcStr() == "")
+        return children.size() > 0 ? children[0] : "";
+    // Replace the variables (words are quoted) by the children
+    vector<string> symbols = Tokenize(edge->GetSrcStr(), " ");
+    for(size_t i = 0; i < symbols.size(); i++) {
+        if(symbols[i].size() >= 2 && symbols[i][0] == 'x' && isdigit(symbols[i][1])) {
+            size_t pos = 1, id = 0;
+            while(pos < symbols[i].size() && isdigit(symbols[i][pos]))
+                id = id*10 + (symbols[i][pos++]-'0');
+            if((pos == symbols[i].size() || symbols[i][pos] == ':') && id < children.size())
+                symbols[i] = children[id];
+        }
     }
+    ostringstream oss;
+    for(size_t i = 0; i < symbols.size(); i++)
+        oss << (i != 0 ? " " : "") << symbols[i];
+    return oss.str();
+}
 
-    return tree;
+std::string HyperPath::GetTreeStr() const {
+    if(edges_.size() == 0) return "";
+    int idx = 0;
+    return GetTreeStr(idx);
 }
 
 // Calculate the features for this path by simply adding up all the features
-- 
2.43.0


From ecd17a6190d4e133349827f8724455478b7a8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 066/118] fix: trim an empty forest to an empty forest instead
 of reading past its nodes

---
 src/lib/trimmer-nbest.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/trimmer-nbest.cc b/src/lib/trimmer-nbest.cc
index 090b362..e135d13 100644
--- a/src/lib/trimmer-nbest.cc
+++ b/src/lib/trimmer-nbest.cc
@@ -12,9 +12,10 @@ using namespace boost;
 void TrimmerNbest::FindActive(const HyperGraph & hg,
                 std::map<int,int> & active_nodes,
                 std::map<int,int> & active_edges) const {
+    // There is nothing to trim in an empty graph
+    if(hg.GetNodes().size() == 0) return;
     // Always preserve the root node
-    if(hg.GetNodes().size() != 0)
-        Trimmer::AddId(active_nodes, 0);
+    Trimmer::AddId(active_nodes, 0);
     // Get the n-best
     // TODO: const_cast is a bit dangerous, but let's leave it for now
     NbestList nbest = const_cast<HyperGraph&>(hg).GetNbest(n_);;
-- 
2.43.0


From e2fe9b3d9c88fe63a38dd44f2e57c27515e8badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 067/118] fix: give the root of a forest parsed with a language
 model its symbol so that it can be read back

---
 src/lib/lookup-table-cfglm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index 356e328..d8866bb 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -320,6 +320,7 @@ HyperGraph * LookupTableCFGLM::TransformGraph(const HyperGraph & graph) const {
     // Add the root note
     HyperNode * root = new HyperNode;
     root->SetSpan(make_pair(0, N));
+    root->SetSym(root_symbol_[0]);
     ret->AddNode(root);
 
     for(int i = N-1; i >= 0; i--) {
-- 
2.43.0


From 274281699c4d986256dd4e64e79d6e16187f3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 068/118] fix: do not share an unguarded cache of barred
 symbols between the decoding threads

---
 src/include/travatar/binarizer.h | 5 -----
 src/lib/binarizer.cc             | 6 +-----
 2 files changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/include/travatar/binarizer.h b/src/include/travatar/binarizer.h
index 30edb48..8de15cd 100644
--- a/src/include/travatar/binarizer.h
+++ b/src/include/travatar/binarizer.h
@@ -3,7 +3,6 @@
 
 #include <travatar/graph-transformer.h>
 #include <travatar/sentence.h>
-#include <map>
 #include <string>
 
 namespace travatar {
@@ -11,12 +10,8 @@ namespace travatar {
 // A parent class for all classes that binarize trees
 class Binarizer : public GraphTransformer {
 
-protected:
-    std::map<int,int> barred_map_;
-
 public:
 
-    Binarizer() : barred_map_() { }
     static Binarizer * CreateBinarizerFromString(const std::string & bin);
 
     WordId GetBarredSymbol(WordId sym) const;
diff --git a/src/lib/binarizer.cc b/src/lib/binarizer.cc
index 5e8b38c..6225ba8 100644
--- a/src/lib/binarizer.cc
+++ b/src/lib/binarizer.cc
@@ -25,9 +25,5 @@ Binarizer * Binarizer::CreateBinarizerFromString(const std::string & bin) {
 }
 
 WordId Binarizer::GetBarredSymbol(WordId sym) const {
-    map<int,int>::const_iterator it = barred_map_.find(sym);
-    if(it != barred_map_.end()) return it->second;
-    WordId ret = Dict::WID(Dict::WSym(sym)+"'");
-    const_cast<map<int,int>& >(barred_map_).insert(make_pair(sym, ret));
-    return ret;
+    return Dict::WID(Dict::WSym(sym)+"'");
 }
-- 
2.43.0


From e2d9fc88decb42d8216291ca0033cdacd288a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 069/118] fix: average the lexical probabilities of aligned
 words over the target words, not the source words

---
 script/train/score-t2s.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index d028c13..06b9da8 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -77,8 +77,8 @@ sub m1prob {
     if($LEX_ALIGNED and $align) {
         my (@probs, @num);
         while($align =~ /([0-9]+)-([0-9]+)/g) {
-            $probs[$1] += $lex{"$trgarr->[$2]\t$srcarr->[$1]"};
-            $num[$1] += 1;
+            $probs[$2] += $lex{"$trgarr->[$2]\t$srcarr->[$1]"};
+            $num[$2] += 1;
         }
         for(0 .. @$trgarr-1) {
             my $prob = ($num[$_] ? $probs[$_]/$num[$_] : $lex{"$trgarr->[$_]\tNULL"});
-- 
2.43.0


From db7147c44d0488c1b5492d425e4a9b962aed5ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 070/118] fix: do not take the source label, or a word, for the
 target label of a rule

---
 script/train/score-t2s.pl | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index 06b9da8..f0de68b 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -125,10 +125,8 @@ sub print_counts {
         # If we are using target side syntax and the rule is bad
         my $extra_feat;
         if($SYNTAX_FEATS) {
-            $src =~ /^([^ ]+) /;
-            my $src_lab = $1;
-            $trg =~ /@ ([^ ]+)/; #~ / @ ([^ ]+)/
-            my $trg_lab = $1;
+            my ($src_lab) = ($src =~ /^([^ ]+) /);
+            my ($trg_lab) = ($trg =~ /(?:^| )@ ([^ ]+)$/);
             $extra_feat .= " ${PREFIX}isx=1" if($TRG_SYNTAX and $trg_lab eq "\@X\@");
             $extra_feat .= " ${PREFIX}sl_${src_lab}=1" if $SRC_LABEL and $src_lab;
             $extra_feat .= " ${PREFIX}tl_${trg_lab}=1" if $TRG_LABEL and $trg_lab;
-- 
2.43.0


From 5778217050e7532af0c7a5ac1cfb506ef6d96cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 071/118] fix: print percent signs in labels as they are

---
 script/train/score-t2s.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index f0de68b..4303f1e 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -134,7 +134,7 @@ sub print_counts {
         }
         # Find the counts/probabilities
         my $lprob = ($cnt > 0) ? log($cnt/$sum) : -99;
-        print "$src ||| $trg ||| ".sprintf("${PREFIX}${COND_PREFIX}p=%f$extra_feat", $lprob);
+        print "$src ||| $trg ||| ".sprintf("${PREFIX}${COND_PREFIX}p=%f", $lprob).$extra_feat;
         printf " ${PREFIX}${COND_PREFIX}l=%f", m1prob(\@srcarr, \@trgarr, $bestalign) if $LEX_PROB_FILE;
         if($JOINT) {
             printf " ${PREFIX}p=1";
-- 
2.43.0


From 233e307b6bfd714e07fe17c76296bef40760ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 072/118] fix: do not take the line end for a part of the last
 word when filtering for plain text

---
 script/train/filter-rt.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index 8e707ef..227f1c7 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -42,6 +42,7 @@ if($SRC) {
             chomp;
             @sent = split(/ +/);
         } elsif ($SRC_FORMAT eq "word") {
+            chomp;
             @sent = split(/ +/);
         } else {
             die "Illegal source format: $SRC_FORMAT";
-- 
2.43.0


From 0c45feaf2f037e81cb9f27a439a47fe02b041aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 073/118] fix: look at every word and non-terminal of a source
 when filtering rules, not at every other one

---
 script/train/filter-rt.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index 227f1c7..7591fb2 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -63,7 +63,7 @@ while($line = <STDIN>) {
     die "Wrong number of columns in $line" if @cols < 2;
     if(@cols == 2) { push @cols, ""; }
     my ($term, $nonterm, $bad, @currsrc);
-    while($cols[0] =~ / ("([^ ]+)"|x\d+:[^ ]+) /g) {
+    while($cols[0] =~ /(?<![^ ])("([^ ]+)"|x\d+(?::[^ ]+)?)(?![^ ])/g) {
         my $myid = $2;
         if($myid) {
             $term++;
-- 
2.43.0


From 2a567525eb56e0561fc04c614d82472923775287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 074/118] fix: do not take the word 0 for a non-terminal when
 filtering rules

---
 script/train/filter-rt.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index 7591fb2..8c1d052 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -65,7 +65,7 @@ while($line = <STDIN>) {
     my ($term, $nonterm, $bad, @currsrc);
     while($cols[0] =~ /(?<![^ ])("([^ ]+)"|x\d+(?::[^ ]+)?)(?![^ ])/g) {
         my $myid = $2;
-        if($myid) {
+        if(defined $myid) {
             $term++;
             push @currsrc, $myid;
         } else {
-- 
2.43.0


From ccb1596a14e1cbab328f1f8efae7d4d2f0050ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 075/118] fix: filter by length only when no source file is
 given to filter-rt.pl

---
 script/train/filter-rt.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index 8c1d052..c917457 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -70,13 +70,13 @@ while($line = <STDIN>) {
             push @currsrc, $myid;
         } else {
             $nonterm++;
-            if(@currsrc and not exists $src{"@currsrc"}) {
+            if($SRC and @currsrc and not exists $src{"@currsrc"}) {
                 $bad = 1;
                 last;
             }
             @currsrc = ();
         }
     }
-    $bad = 1 if ($bad or ($term > $LEN) or ($nonterm > $NTLEN) or (@currsrc and not exists $src{"@currsrc"}));
+    $bad = 1 if ($bad or ($term > $LEN) or ($nonterm > $NTLEN) or ($SRC and @currsrc and not exists $src{"@currsrc"}));
     if(!$bad) { print "$line\n"; }
 }
-- 
2.43.0


From 984b684e6bc2ee62dca4dc4235ad00c133aacbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 076/118] fix: prune rules by their own count, which comes
 first in a travatar rule table

---
 script/train/filter-rule-table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/filter-rule-table.py b/script/train/filter-rule-table.py
index 3100bc7..3dedf8b 100755
--- a/script/train/filter-rule-table.py
+++ b/script/train/filter-rule-table.py
@@ -144,7 +144,7 @@ def parseRule(line):
     if len(cols) > 4:
         counts = cols[3].split()
         if len(counts) == 3:
-            ruleCount = float(counts[2])
+            ruleCount = float(counts[0])
     return (rhsSourceSymbols, ruleCount)
 
 def isNT(symbol):
-- 
2.43.0


From 170e99cd2b579957374fe090016294d301802058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 077/118] fix: do not count a closing parenthesis standing
 alone as a word when filtering for Penn trees

---
 script/train/filter-rule-table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/filter-rule-table.py b/script/train/filter-rule-table.py
index 3dedf8b..63e452d 100755
--- a/script/train/filter-rule-table.py
+++ b/script/train/filter-rule-table.py
@@ -237,7 +237,7 @@ def cleanSentences(inputSentences, options):
         for sentence in inputSentences:
             cleaned = []
             for elem in sentence:
-                if elem[-1] == ')':
+                if elem[-1] == ')' and elem.rstrip(')'):
                     cleaned.append( elem.rstrip(')') )
             if cleaned:
                 sentences.append(cleaned)
-- 
2.43.0


From 22f356463a749d19ba241f709880371a8dba518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 078/118] fix: do not count an empty word before leading spaces
 when cleaning a corpus

---
 script/train/clean-corpus.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/clean-corpus.pl b/script/train/clean-corpus.pl
index e539801..bfeb1d5 100755
--- a/script/train/clean-corpus.pl
+++ b/script/train/clean-corpus.pl
@@ -46,7 +46,7 @@ while(1) {
     my $defcnt = sum(map { defined($_) ? 1 : 0 } @instrs);
     last if $defcnt == 0;
     die "Uneven number of lines" if $defcnt != @inhandles;
-    my @cnts = map { chomp; my $cnt = split(/ +/); $cnt } @instrs;
+    my @cnts = map { chomp; my $cnt = () = /[^ ]+/g; $cnt } @instrs;
     my $okcnt = sum(map { (($_ >= $MIN_LEN) and ($_ <= $MAX_LEN)) ? 1 : 0 } @cnts);
     $id++;
     if($okcnt == @inhandles) {
-- 
2.43.0


From dcb0d7ada46d64357139687e15b8d369fb8cf5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 079/118] fix: compare the last sentence's n-best entries with
 the other files too, and those of sentences missing in some file

---
 script/mert/nbest-uniq.pl | 60 ++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/script/mert/nbest-uniq.pl b/script/mert/nbest-uniq.pl
index 016780b..30fab14 100755
--- a/script/mert/nbest-uniq.pl
+++ b/script/mert/nbest-uniq.pl
@@ -17,46 +17,40 @@ for(@ARGV) {
    push @handles, $fh;
 }
 
-my (%curr, %next);
+# The entries of the current sentence, and the next line of each file when it is of a later sentence
+my (%curr, @pending);
 
-sub print_save {
-    for(@_) {
-        my @arr = split(/ \|\|\| /);
-        $arr[3] = join(" ", sort(split(/ /, $arr[3])));
-        my $id = "$arr[0] ||| $arr[1] ||| $arr[3]";
-        print "$_\n" if not $curr{$id}++;
+sub entry_id {
+    my @arr = split(/ \|\|\| /, $_[0]);
+    $arr[3] = join(" ", sort(split(/ /, defined($arr[3]) ? $arr[3] : "")));
+    return "$arr[0] ||| $arr[1] ||| $arr[3]";
+}
+
+sub load_sentence {
+    my $sent = shift;
+    %curr = ();
+    foreach my $i (0 .. $#handles) {
+        my $fh = $handles[$i];
+        while(defined(my $val = (defined($pending[$i]) ? $pending[$i] : <$fh>))) {
+            $pending[$i] = undef;
+            chomp $val;
+            $val =~ /^(\d+) \|\|\|/ or die "Badly formed n-best $val\n";
+            if($1 > $sent) {
+                $pending[$i] = $val;
+                last;
+            }
+            $curr{entry_id($val)}++ if $1 == $sent;
+        }
     }
 }
 
-my $last = 0;
-my @save;
+my $last = -1;
 while(<STDIN>) {
     chomp;
     /^(\d+) \|\|\|/ or die "Badly formed n-best $_\n";
-    my $curr_line = $_;
     if($1 != $last) {
-        my $next = $1;
-        %curr = %next;
-        %next = ();
-        for(@handles) {
-            while(my $val = <$_>) {
-                chomp $val;
-                my @arr = split(/ \|\|\| /, $val);
-                $arr[3] = join(" ", sort(split(/ /, $arr[3])));
-                my $id = "$arr[0] ||| $arr[1] ||| $arr[3]";
-                if($arr[0] != $last) {
-                    $next{$id}++;
-                    last;
-                } else {
-                    $curr{$id}++;
-                }
-            }
-        }
-        print_save(@save);
-        @save = ($curr_line);
-        $last = $next;
-    } else {
-        push @save, $_;
+        $last = $1;
+        load_sentence($last);
     }
+    print "$_\n" if not $curr{entry_id($_)}++;
 }
-print_save(@save);
-- 
2.43.0


From 40eb58a6b28be6fa49d2a8c05da38d3f37cb66aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 080/118] fix: do not cut forests that are printed, in
 particular when their size is not limited

---
 script/tree/replace-failed-parse.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/script/tree/replace-failed-parse.pl b/script/tree/replace-failed-parse.pl
index 4dc978d..da8e6e4 100755
--- a/script/tree/replace-failed-parse.pl
+++ b/script/tree/replace-failed-parse.pl
@@ -47,7 +47,7 @@ if($FORMAT eq "penn") {
 } elsif ($FORMAT eq "egret") {
     while(1) {
         my ($corok, $correct) = &get_egret(\*FILE0);
-        my ($skeok, $sketchy) = &get_egret(\*FILE1);
+        my ($skeok, $sketchy) = &get_egret(\*FILE1, $MAX_FOREST);
         last if((not $correct) and (not $sketchy));
         my @arr = ($sketchy ? split(/\n/, $sketchy) : ());
         print STDERR "WARNING: removing overly large forest: size ".scalar(@arr)." > limit $MAX_FOREST\n" if @arr > $MAX_FOREST;
@@ -62,7 +62,7 @@ if($FORMAT eq "penn") {
 }
 
 sub get_egret {
-    my $handle = shift;
+    my ($handle, $limit) = @_;
     my ($ret, $buf) = ("", "");
     if(defined($buf = <$handle>)) {
         $buf =~ /^sentence/ or die "Bad forest header: $buf";
@@ -82,7 +82,7 @@ sub get_egret {
     }
     my $len = 0;
     while($buf = <$handle>) {
-        $ret .= $buf if ($len++ <= ($MAX_FOREST+1));
+        $ret .= $buf if (not $limit) or ($len++ <= ($limit+1));
         chomp $buf;
         last if not $buf;
     }
-- 
2.43.0


From cd54852afd16d2f97ebbb831b574ac9fed6812fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 081/118] fix: use the headline flag of the sentence itself
 when detruecasing

---
 script/recaser/detruecase.pl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/script/recaser/detruecase.pl b/script/recaser/detruecase.pl
index 9c3438b..b2945e3 100755
--- a/script/recaser/detruecase.pl
+++ b/script/recaser/detruecase.pl
@@ -52,7 +52,7 @@ else {
 }
 
 sub process {
-    my $line = $_[0];
+    my ($line, $sentence) = @_;
     chomp($line);
     $line =~ s/^ +//;
     $line =~ s/ +$//;
@@ -81,7 +81,6 @@ sub process {
 	print $_;
     }
     print "\n";
-    $sentence++;
 }
 
 sub uppercase {
-- 
2.43.0


From b71bdaadc89b4356f7bff0c9b1d846372954829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 082/118] fix: keep the sentence numbers of the input in the
 rescored n-best list

---
 src/lib/rescorer-runner.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/rescorer-runner.cc b/src/lib/rescorer-runner.cc
index 9671141..b114f4e 100644
--- a/src/lib/rescorer-runner.cc
+++ b/src/lib/rescorer-runner.cc
@@ -146,9 +146,8 @@ void RescorerRunner::Run(const ConfigRescorer & config) {
             Rescore(nbest);
             Print(nbest);
             nbest.clear();
-            sent_++;
         }
-        last_id = id;
+        last_id = sent_ = id;
         nbest.push_back(RescorerNbestElement(Dict::ParseWords(columns[1]), 
                                              Dict::ParseSparseVector(columns[3]),
                                              boost::lexical_cast<Real>(columns[2])));
-- 
2.43.0


From 253e52bcc68733fc6175f8e18f009df5bda01363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 083/118] fix: evaluate whole candidate segments when some of
 the following cuts are impossible

---
 src/lib/mt-segmenter-runner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 473b5c2..1f8f320 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -35,6 +35,7 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
         curr_sentence.push_back(sys_corpus[i]);
     Real best_score = -REAL_MAX;
     for(int i = first; i <= last; i++) {
+        if(i != first) curr_sentence.push_back(sys_corpus[i-1]);
         pair<int,int> next_refsys(curr_refsys.first+1, i);
         EvalStatsPtr eval, next_eval;
         if(!is_last) { 
@@ -55,7 +56,6 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
             memo[curr_refsys] = MTSegmenterMemo::mapped_type(next_refsys, eval);
             best_score = my_score;
         }
-        if(i != last) curr_sentence.push_back(sys_corpus[i]);
     }
     // If we have not found any answer, add a dummy answer
     if(best_score == -REAL_MAX)
-- 
2.43.0


From d20e154e2ce8b97a811290d6318f7fe8d55a22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 084/118] fix: report that a segmentation is impossible, or an
 unreadable file, instead of reading outside of the references

---
 src/lib/mt-segmenter-runner.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 1f8f320..3845a6c 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -76,10 +76,14 @@ void MTSegmenterRunner::SegmentMT(
         vector<Sentence> & sys_sents) {
     MTSegmenterMemo memo;
     pair<int,int> curr_refsys(0,0);
+    if(ref_sents.empty() && !sys_corpus.empty())
+        THROW_ERROR("Cannot segment " << sys_corpus.size() << " words without any reference");
     while(curr_refsys.first != (int)ref_sents.size()) {
         MTSegmenterMemo::mapped_type next_refsys = GetNextRefSys(
             ref_sents, sys_corpus, eval_measure,
             curr_refsys, memo);
+        if(next_refsys.second.get() == NULL)
+            THROW_ERROR("Cannot cut " << sys_corpus.size() << " words into segments of at most " << slack_ << " times the length of the references");
         sys_sents.push_back(Sentence());
         for(int i = curr_refsys.second; i < next_refsys.first.second; i++)
             sys_sents.rbegin()->push_back(sys_corpus[i]);
@@ -113,6 +117,8 @@ void MTSegmenterRunner::Run(const ConfigMTSegmenterRunner & config) {
     // Load the file to be split
     const string & filename = config.GetMainArg(0);
     ifstream sysin(filename.c_str());
+    if(!sysin)
+        THROW_ERROR("Could not open system output: " << filename);
     Sentence sys_corpus;
     while(getline(sysin, line))
         BOOST_FOREACH(WordId wid, Dict::ParseWords(line))
-- 
2.43.0


From ef23446db435cd287a07fa7b8f3ae39b4798d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 085/118] fix: do not break ties in MERT by the addresses of
 the statistics

---
 src/lib/tuning-example-nbest.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/tuning-example-nbest.cc b/src/lib/tuning-example-nbest.cc
index 6a41bf8..4dc8106 100644
--- a/src/lib/tuning-example-nbest.cc
+++ b/src/lib/tuning-example-nbest.cc
@@ -48,6 +48,10 @@ inline Real FindIntersection(Real s1, Real v1, Real s2, Real v2) {
     return (s1==s2 ? REAL_MAX : (v1-v2)/(s2-s1));
 }
 
+inline bool LineLess(const ScoredSpan & a, const ScoredSpan & b) {
+    return a.first < b.first;
+}
+
 // Get the convex hull, which consists of scored spans in order of the span location
 ConvexHull TuningExampleNbest::CalculateConvexHull(
                         const SparseMap & weights,
@@ -61,8 +65,8 @@ ConvexHull TuningExampleNbest::CalculateConvexHull(
         Real val = weights * examp.first;
         lines.push_back(make_pair(make_pair(slope, val), examp.second));
     }
-    // Sort in order of ascending slope
-    sort(lines.begin(), lines.end());
+    // Sort in order of ascending slope (not by the statistics, which are pointers)
+    stable_sort(lines.begin(), lines.end(), LineLess);
     // Start at position zero
     // While we are not finished
     ConvexHull hull;
-- 
2.43.0


From 09cd72caff68c6f3099c22e981051b35ccc3f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 086/118] fix: take negative numbers and a single dash on the
 command line for values, not for options

---
 src/lib/config-base.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index 29e833f..5e1184c 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -2,6 +2,7 @@
 #include <travatar/global-debug.h>
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
+#include <cctype>
 #include <fstream>
 
 using namespace std;
@@ -62,14 +63,19 @@ void ConfigBase::LoadConfig(const string & file_name) {
     }
 }
 
+// Whether an argument names an option; negative numbers and a single "-" are values
+static bool IsOption(const char* arg) {
+    return arg[0] == '-' && arg[1] != '\0' && arg[1] != '.' && !isdigit((unsigned char)arg[1]);
+}
+
 std::vector<std::string> ConfigBase::LoadConfig(int argc, char** argv, bool print_help) {
     for(int i = 1; i < argc; i++) {
-        if(argv[i][0] == '-') {
+        if(IsOption(argv[i])) {
             std::string name(argv[i]+1); 
             ConfigMap::iterator cit = optArgs_.find(name);
             if(cit == optArgs_.end())
                 DIE_HELP("Illegal argument "<<name);
-            if(i == argc-1 || argv[i+1][0] == '-')
+            if(i == argc-1 || IsOption(argv[i+1]))
                 cit->second.first = "true";
             else
                 cit->second.first = argv[++i];
-- 
2.43.0


From 9ae244011fc7b83570c7ee8b2a842281e9d16543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 087/118] fix: do not claim a gain of the line search when no
 span is in its range

---
 src/lib/tune-mert.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index 7169c85..c9b716d 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -80,6 +80,9 @@ LineSearchResult TuneMert::LineSearch(
         PRINT_DEBUG("aft: " << boundary << " curr_stats=" << *curr_stats << endl, 4);
         last_bound = boundary.first;
     }
+    // If there is no span in the range (for a weight that may not change), stay
+    if(best_score == -REAL_MAX)
+        return LineSearchResult(0, *zero_stats, *zero_stats);
     // Given the best span, find the middle
     Real middle;
     if(best_span.first.first < 0 && best_span.first.second > 0)
-- 
2.43.0


From 53c4142afe243eb49bf596a4e96f281534ae7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 088/118] fix: read the bounds of weight ranges as real numbers

---
 src/lib/batch-tune-runner.cc | 5 +++--
 src/lib/travatar-runner.cc   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index aa59a2b..a73c54a 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -18,6 +18,7 @@
 #include <travatar/global-debug.h>
 #include <travatar/string-util.h>
 
+#include <boost/lexical_cast.hpp>
 #include <boost/shared_ptr.hpp>
 #include <boost/foreach.hpp>
 #include <boost/algorithm/string.hpp>
@@ -154,8 +155,8 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
             if(range_vals.size() != 2 && range_vals.size() != 3)
                 THROW_ERROR("Weight ranges must be in the format MIN|MAX[|NAME]");
             WordId id = (range_vals.size() == 3 ? Dict::WID(range_vals[2]) : -1);
-            Real min_score = (range_vals[0] == "" ? -REAL_MAX : atoi(range_vals[0].c_str()));
-            Real max_score = (range_vals[1] == "" ? REAL_MAX  : atoi(range_vals[1].c_str()));
+            Real min_score = (range_vals[0] == "" ? -REAL_MAX : lexical_cast<Real>(range_vals[0]));
+            Real max_score = (range_vals[1] == "" ? REAL_MAX  : lexical_cast<Real>(range_vals[1]));
             tune->SetRange(id, min_score, max_score);
         }
     }
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 0b47805..26199c7 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -24,6 +24,7 @@
 #include <travatar/input-file-stream.h>
 #include <travatar/config-travatar-runner.h>
 #include <lm/model.hh>
+#include <boost/lexical_cast.hpp>
 #include <boost/shared_ptr.hpp>
 #include <boost/scoped_ptr.hpp>
 // #include <boost/algorithm/string.hpp>
@@ -244,8 +245,8 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
                 if(range_vals.size() != 2 && range_vals.size() != 3)
                     THROW_ERROR("Weight ranges must be in the format MIN|MAX[|NAME]");
                 WordId id = (range_vals.size() == 3 ? Dict::WID(range_vals[2]) : -1);
-                Real min_score = (range_vals[0] == "" ? -REAL_MAX : atoi(range_vals[0].c_str()));
-                Real max_score = (range_vals[1] == "" ? REAL_MAX  : atoi(range_vals[1].c_str()));
+                Real min_score = (range_vals[0] == "" ? -REAL_MAX : boost::lexical_cast<Real>(range_vals[0]));
+                Real max_score = (range_vals[1] == "" ? REAL_MAX  : boost::lexical_cast<Real>(range_vals[1]));
                 weights_->SetRange(id, min_score, max_score);
             }
         }
-- 
2.43.0


From b939762d76e41068da976a998ea939b1cc0a50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 089/118] fix: refuse n-best lists and forests of sentences
 that have no reference instead of reading past the references

---
 src/include/travatar/batch-tune-runner.h |  3 +++
 src/lib/batch-tune-runner.cc             | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/batch-tune-runner.h b/src/include/travatar/batch-tune-runner.h
index c3146a2..794b7e6 100644
--- a/src/include/travatar/batch-tune-runner.h
+++ b/src/include/travatar/batch-tune-runner.h
@@ -55,6 +55,9 @@ public:
 
 private:
 
+    // Get the number of a sentence of an n-best list
+    int GetSentenceId(const std::string & str) const;
+
     // Load n-best lists or forests
     void LoadNbests(std::istream & sys_in, Tune & tune, std::istream * stat_in);
     void LoadForests(std::istream & sys_in, Tune & tune);
diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index a73c54a..3af51ad 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -41,6 +41,14 @@ void BatchTuneRunnerTask::Run() {
     PRINT_DEBUG(task_name_<<": " << Dict::PrintSparseMap(weights_) << " => " << score_ << endl, 1);
 }
 
+// Get the number of a sentence, which must have a reference
+int BatchTuneRunner::GetSentenceId(const string & str) const {
+    int id = boost::lexical_cast<int>(str);
+    if(id < 0 || id >= (int)refs_.size())
+        THROW_ERROR("No reference for sentence " << str << " of the n-best list");
+    return id;
+}
+
 void BatchTuneRunner::LoadNbests(istream & sys_in, Tune & tune, istream * stat_in) {
     string line;
     while(getline(sys_in, line)) {
@@ -48,7 +56,7 @@ void BatchTuneRunner::LoadNbests(istream & sys_in, Tune & tune, istream * stat_i
         if(columns.size() != 4)
             THROW_ERROR("Expected 4 columns in n-best list:\n" << line);
         // Get the number
-        int id = atoi(columns[0].c_str());
+        int id = GetSentenceId(columns[0]);
         // Get the factors
         vector<Sentence> hyps = Dict::ParseWordVector(columns[1]);
         // Get the features
@@ -83,6 +91,8 @@ void BatchTuneRunner::LoadForests(istream & sys_in, Tune & tune) {
         if(id % 100 == 0)
             PRINT_DEBUG(id << ".", 1);
         PRINT_DEBUG("Loading line " << id << endl, 1);
+        if(id >= (int)refs_.size())
+            THROW_ERROR("More forests than references");
         const std::vector<Sentence> & ref = refs_[id];
         // Add the example
         if((int)tune.NumExamples() <= id) {
@@ -269,7 +279,7 @@ void BatchTuneRunner::CalculateSentenceStats(const ConfigBatchTune & config, con
         vector<string> columns = Tokenize(line, " ||| ");
         if(columns.size() != 4)
             THROW_ERROR("Expected 4 columns in n-best list:\n" << line);
-        int id = atoi(columns[0].c_str());
+        int id = GetSentenceId(columns[0]);
         vector<Sentence> hyps = Dict::ParseWordVector(columns[1]);
         EvalStatsPtr stats = eval_->CalculateCachedStats(refs_[id], hyps, id);
         stat_out << stats->WriteStats() << endl;
-- 
2.43.0


From 117f1eef1da5a10d138c2c1b5798f78bf9e645e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 090/118] fix: take integer and real options as numbers only
 when all of the value is a number (zero in any form included)

---
 src/lib/config-base.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index 5e1184c..e96df08 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -3,6 +3,9 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <cctype>
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
 #include <fstream>
 
 using namespace std;
@@ -100,6 +103,13 @@ void ConfigBase::AddConfigEntry(const std::string & name, const std::string & va
     optArgs_.insert(entry);
 }
 
+// Whether a number that was read up to "end" was all there is in the string besides white space
+static bool IsWholeNumber(const std::string & str, const char* end) {
+    if(end == str.c_str()) return false;
+    while(isspace((unsigned char)*end)) end++;
+    return end == str.c_str() + str.length();
+}
+
 // Getter functions
 std::vector<std::string> ConfigBase::GetStringArray(const std::string & name) const {
     ConfigMap::const_iterator it = optArgs_.find(name);
@@ -125,15 +135,18 @@ std::vector<int> ConfigBase::GetIntArray(const std::string & name) const {
 }
 int ConfigBase::GetInt(const std::string & name) const {
     std::string str = GetString(name);
-    int ret = atoi(str.c_str());
-    if(ret == 0 && str != "0" && str != "00" && str != "000" && str != "0000")
+    char * end;
+    errno = 0;
+    long ret = strtol(str.c_str(), &end, 10);
+    if(!IsWholeNumber(str, end) || errno == ERANGE || ret < INT_MIN || ret > INT_MAX)
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not an integer");
     return ret;
 }
 Real ConfigBase::GetReal(const std::string & name) const {
     std::string str = GetString(name);
-    Real ret = atof(str.c_str());
-    if(ret == 0 && str != "0" && str != "0.0")
+    char * end;
+    Real ret = strtod(str.c_str(), &end);
+    if(!IsWholeNumber(str, end))
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not float");
     return ret;
 }
-- 
2.43.0


From f19bacd30b60c341a6ec3a09cc5270cba9057eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 091/118] fix: refuse to convert a tree file that cannot be
 opened

---
 src/lib/tree-converter-runner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/tree-converter-runner.cc b/src/lib/tree-converter-runner.cc
index 4f9079c..f6f1f72 100644
--- a/src/lib/tree-converter-runner.cc
+++ b/src/lib/tree-converter-runner.cc
@@ -90,7 +90,7 @@ void TreeConverterRunner::Run(const ConfigTreeConverterRunner & config) {
     istream * src_in;
     if(argv.size() == 1 && argv[0] != "-") {
         src_in = new ifstream(argv[0].c_str());
-        if(!src_in) THROW_ERROR("Could not find src file: " << argv[0]);
+        if(!*src_in) THROW_ERROR("Could not find src file: " << argv[0]);
     } else {
         src_in = &cin;
     }
-- 
2.43.0


From 6485c6198883a315e32b2773ab44b9221e94234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 092/118] fix: refuse missing translation models, thread counts
 below one and negative restarts instead of reading past arrays or dropping
 work

---
 src/lib/batch-tune-runner.cc | 4 ++++
 src/lib/travatar-runner.cc   | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index 3af51ad..7829ad0 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -114,6 +114,10 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
     // Save number of threads and runs
     int threads = config.GetInt("threads");
     int runs = config.GetInt("restarts")+2;
+    if(threads < 1)
+        THROW_ERROR("Cannot tune with " << threads << " threads");
+    if(runs < 2)
+        THROW_ERROR("The number of restarts cannot be negative");
     
     // Chose the tuning method
     boost::shared_ptr<Tune> tune;
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 26199c7..b34dab3 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -190,6 +190,8 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     nbest_count_ = config.GetInt("nbest");
     nbest_uniq_ = config.GetBool("nbest_uniq");
     threads_ = config.GetInt("threads");
+    if(threads_ < 1)
+        THROW_ERROR("Cannot translate with " << threads_ << " threads");
 
     // Create the timer
     Timer timer;
@@ -283,6 +285,8 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
                                             pop_limits[0],
                                             weights_->GetCurrent()));
         } else if(multi_type == "consec") {
+            if(pop_limits.size() == 0)
+                THROW_ERROR("Must specify at least one pop limit");
             while(pop_limits.size() < lm_files.size())
                 pop_limits.push_back(pop_limits[0]);
             for(int i = 0; i < (int)lm_files.size(); i++)
@@ -298,6 +302,10 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     // Load the rule table
     PRINT_DEBUG(endl << "Loading translation model [" << timer << " sec]" << endl, 1);
     vector<string> tm_files = config.GetStringArray("tm_file");
+    if(tm_files.size() == 0)
+        THROW_ERROR("You must specify a translation model through -tm_file");
+    if(tm_files.size() != 1 && (config.GetString("tm_storage") == "hash" || config.GetString("tm_storage") == "marisa"))
+        THROW_ERROR("Cannot use multiple translation models with -tm_storage=" << config.GetString("tm_storage"));
     if(config.GetString("tm_storage") == "hash") {
         LookupTableHash * hash_tm_ = LookupTableHash::ReadFromFile(tm_files[0]);
         hash_tm_->SetMatchAllUnk(config.GetBool("all_unk"));
-- 
2.43.0


From b0cb9461de58e9b2a247223ece5b3acac98ea541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 093/118] fix: compose up to the documented default of 4 rules

---
 src/include/travatar/config-forest-extractor-runner.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/travatar/config-forest-extractor-runner.h b/src/include/travatar/config-forest-extractor-runner.h
index 06fc725..0ab3f46 100644
--- a/src/include/travatar/config-forest-extractor-runner.h
+++ b/src/include/travatar/config-forest-extractor-runner.h
@@ -28,7 +28,7 @@ public:
         AddConfigEntry("input_format", "penn", "The format of the input (penn/json)");
         AddConfigEntry("output_format", "word", "The format of the output (word/penn/json)");
         AddConfigEntry("binarize", "right", "How to binarize the trees (none/left/right)");
-        AddConfigEntry("compose", "5", "How many rules to compose (default 4, 1=no composition)");
+        AddConfigEntry("compose", "4", "How many rules to compose (default 4, 1=no composition)");
         AddConfigEntry("src_lex_len", "-1", "Use all fully lexicalized rules up to this length (default -1: same as term_len)");
         AddConfigEntry("attach", "top", "Where to attach null aligned target words (top/none/exhaustive, default top)");
         AddConfigEntry("attach_len", "1", "The maximum length of null segments to attach");
-- 
2.43.0


From c05136d5691ae7c515931fc3bef6ca2d6b1c32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 094/118] fix: refuse weights whose value is not a number

---
 src/lib/dict.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/dict.cc b/src/lib/dict.cc
index 5d2b7b5..6c9a8c2 100644
--- a/src/lib/dict.cc
+++ b/src/lib/dict.cc
@@ -41,7 +41,10 @@ SparseMap Dict::ParseSparseMap(std::istream & iss) {
         if(pos == string::npos) THROW_ERROR("Bad feature string @ " << buff);
         WordId feature_id = Dict::WID(buff.substr(0,pos));
         if (ret.find(feature_id) != ret.end()) THROW_ERROR("Found duplicated feature string @ " << buff);
-        ret.insert(make_pair(feature_id, atof(buff.substr(pos+1).c_str())));
+        char * end;
+        Real val = strtod(buff.c_str()+pos+1, &end);
+        if(end == buff.c_str()+pos+1 || *end != '\0') THROW_ERROR("Bad feature value @ " << buff);
+        ret.insert(make_pair(feature_id, val));
     }
     return ret;
 }
-- 
2.43.0


From 655145130da07a6a89aa7deaed9512230d5aadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 095/118] fix: set boolean options to values that can be read
 as booleans

---
 src/lib/config-base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index e96df08..3b12746 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -179,5 +179,5 @@ void ConfigBase::SetReal(const std::string & name, Real val) {
     std::ostringstream oss; oss << val; SetString(name,oss.str());
 }
 void ConfigBase::SetBool(const std::string & name, bool val) {
-    std::ostringstream oss; oss << val; SetString(name,oss.str());
+    SetString(name, val ? "true" : "false");
 }
-- 
2.43.0


From edb208b4266255aa037100b126657e470ac59dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 096/118] fix: do not look for punctuation among the children
 of a node that has none

---
 src/lib/binarizer-directional.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/binarizer-directional.cc b/src/lib/binarizer-directional.cc
index 8453679..b24b01b 100644
--- a/src/lib/binarizer-directional.cc
+++ b/src/lib/binarizer-directional.cc
@@ -54,7 +54,7 @@ HyperGraph * BinarizerDirectional::TransformGraph(const HyperGraph & hg) const {
 
             // Choose the direction to do
             Direction dir = dir_;
-            if(raise_punc_) {
+            if(raise_punc_ && tail_str.size() > 1) {
                 // If we are binarizing right, but the last symbol is punctuation
                 if(dir_ == BINARIZE_RIGHT &&
                    punc_labs_.find(hg.GetNode(tail_str[tail_str.size()-1])->GetSym()) != punc_labs_.end()) {
-- 
2.43.0


From 13526134950563a82be8cd236c13077347ce429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 097/118] fix: refuse trees and forests whose nodes do not fit
 the sentence, and write empty graphs

---
 src/lib/tree-io.cc | 96 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 88 insertions(+), 8 deletions(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index e8ca6c3..5f35e3c 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -17,6 +17,68 @@ using namespace std;
 using namespace boost;
 using namespace boost::property_tree;
 
+namespace {
+
+// Depth first search for a node that is its own descendant
+bool HasCycle(const HyperGraph & graph) {
+    // 0 is unvisited, 1 is being visited, 2 is finished
+    vector<int> state(graph.NumNodes(), 0);
+    for(int i = 0; i < graph.NumNodes(); i++) {
+        if(state[i] != 0) continue;
+        // The nodes on the current path, with the next edge and tail to follow
+        vector<pair<int, pair<int,int> > > path(1, make_pair(i, make_pair(0,0)));
+        state[i] = 1;
+        while(path.size()) {
+            const HyperNode * node = graph.GetNode(path.back().first);
+            pair<int,int> & pos = path.back().second;
+            if(pos.first >= (int)node->GetEdges().size()) {
+                state[path.back().first] = 2;
+                path.pop_back();
+            } else if(pos.second >= (int)node->GetEdge(pos.first)->GetTails().size()) {
+                pos.first++; pos.second = 0;
+            } else {
+                int tail = node->GetEdge(pos.first)->GetTail(pos.second++)->GetId();
+                if(state[tail] == 1) return true;
+                if(state[tail] == 0) {
+                    state[tail] = 1;
+                    path.push_back(make_pair(tail, make_pair(0,0)));
+                }
+            }
+        }
+    }
+    return false;
+}
+
+// Make sure that a graph that was read in is consistent with its sentence
+void CheckGraph(const HyperGraph & graph) {
+    int len = graph.GetWords().size();
+    BOOST_FOREACH(const HyperNode * node, graph.GetNodes()) {
+        const pair<int,int> & span = node->GetSpan();
+        if(node->GetEdges().size() == 0) {
+            if(span.first < 0 || span.first >= span.second || span.second > len)
+                THROW_ERROR("Node " << Dict::WSym(node->GetSym()) << "[" << span.first << "," << span.second << "] is not in a sentence of length " << len);
+        // Graphs resulting from decoding may not have spans
+        } else if(len > 0 && span != make_pair(-1,-1)) {
+            if(span.first < 0 || span.first > span.second || span.second > len)
+                THROW_ERROR("Node " << Dict::WSym(node->GetSym()) << "[" << span.first << "," << span.second << "] is not in a sentence of length " << len);
+        }
+    }
+    // Children must lie within their parents
+    BOOST_FOREACH(const HyperEdge * edge, graph.GetEdges()) {
+        const pair<int,int> & head = edge->GetHead()->GetSpan();
+        if(len == 0 || head == make_pair(-1,-1)) continue;
+        BOOST_FOREACH(const HyperNode * tail, edge->GetTails()) {
+            const pair<int,int> & span = tail->GetSpan();
+            if(span != make_pair(-1,-1) && (span.first < head.first || span.second > head.second))
+                THROW_ERROR("The span of node " << Dict::WSym(tail->GetSym()) << "[" << span.first << "," << span.second << "] is not covered by that of its parent");
+        }
+    }
+    if(HasCycle(graph))
+        THROW_ERROR("Cycle in the hypergraph");
+}
+
+}
+
 HyperGraph * TreeIO::ReadFromString(const std::string & str) {
     istringstream iss(str);
     return ReadTree(iss);
@@ -184,7 +246,8 @@ void RuleTreeIO::WriteNode(const vector<WordId> & words,
 }
 
 void RuleTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
-    WriteNode(tree.GetWords(), *tree.GetNode(0), out);
+    if(tree.NumNodes() > 0)
+        WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
 
 HyperGraph * JSONTreeIO::ReadTree(istream & in) {
@@ -196,9 +259,15 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     json_parser::read_json(line_in, pt);
     HyperGraph * ret = new HyperGraph;
     // Get each of the nodes
+    int num_nodes = pt.get_child("nodes").size();
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("nodes")) {
+        int node_id = v.second.get<int>("id");
+        if(node_id < 0 || node_id >= num_nodes)
+            THROW_ERROR("Node id in JSON is out of range: " << node_id);
+        if(v.second.get_child("span").size() != 2)
+            THROW_ERROR("Node " << node_id << " in JSON does not have a span of two numbers");
         HyperNode * node = new HyperNode;
-        node->SetId(v.second.get<int>("id"));
+        node->SetId(node_id);
         node->SetSym(Dict::WID(v.second.get<string>("sym")));
         ptree::const_iterator it = v.second.get_child("span").begin();
         int l = it->second.get<int>(""); int r = (++it)->second.get<int>("");
@@ -211,13 +280,20 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
         ret->AddNode(node);
     }
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("edges")) {
+        int head_id = v.second.get<int>("head");
+        if(head_id < 0 || head_id >= num_nodes)
+            THROW_ERROR("Edge head in JSON is out of range: " << head_id);
         HyperEdge * edge = new HyperEdge;
         edge->SetId(v.second.get<int>("id"));
-        edge->SetHead(ret->GetNode(v.second.get<int>("head")));
+        edge->SetHead(ret->GetNode(head_id));
         edge->GetHead()->AddEdge(edge);
         try {
-            BOOST_FOREACH(ptree::value_type &t, v.second.get_child("tails"))
-                edge->AddTail(ret->GetNode(t.second.get<int>("")));
+            BOOST_FOREACH(ptree::value_type &t, v.second.get_child("tails")) {
+                int tail_id = t.second.get<int>("");
+                if(tail_id < 0 || tail_id >= num_nodes)
+                    THROW_ERROR("Edge tail in JSON is out of range: " << tail_id);
+                edge->AddTail(ret->GetNode(tail_id));
+            }
         } catch (ptree_bad_path e) { }
         try {
             vector<SparsePair> temp;
@@ -249,6 +325,7 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     }
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("words"))
         ret->AddWord(Dict::WID(v.second.get<string>("")));
+    CheckGraph(*ret);
     return ret;
 }
 
@@ -273,7 +350,7 @@ void JSONTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
 }
 
 HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, SymbolSet<int> & node_map, HyperGraph * graph, const HyperNode * parent) {
-    static const regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
+    static const regex node_regex("(.*)\\[(\\d{1,9}),(\\d{1,9})\\]");
     smatch node_match;
     bool has_span = regex_match(str_id, node_match, node_regex);
     // Try to find the node. Terminals have no span of their own, so use that of the
@@ -332,6 +409,7 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         // Get the head
         iss >> buff;
         HyperNode * head = MakeEgretNode(buff, node_map, ret);
+        if(head->GetSpan().first == -1) THROW_ERROR("Head with no span in Egret node string: " << line);
         HyperEdge * edge = new HyperEdge(head); ret->AddEdge(edge); head->AddEdge(edge);
         // The next string should always be "=>"
         iss >> buff;
@@ -346,7 +424,7 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         }
         if(buff != "|||") THROW_ERROR("||| not found in Egret node string: " << line);
         // Finally, read the score and add it to a parse
-        iss >> score;
+        if(!(iss >> score)) THROW_ERROR("No score found in Egret node string: " << line);
         edge->SetScore(score);
         if(!normalize_) edge->GetFeatures().Add(parse_id, score);
     }
@@ -367,6 +445,7 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
             }
         }
     }
+    CheckGraph(*ret);
     return ret;
 }
 
@@ -414,5 +493,6 @@ void MosesXMLTreeIO::WriteNode(const vector<WordId> & words,
 }
 
 void MosesXMLTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
-    WriteNode(tree.GetWords(), *tree.GetNode(0), out);
+    if(tree.NumNodes() > 0)
+        WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
-- 
2.43.0


From 684ba8754db90eeb44d3f5d0550d932c4758a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 098/118] fix: refuse alignments that are not numbers or lie
 outside of the sentences, and missing trees

---
 src/include/travatar/alignment.h   |  3 +++
 src/lib/alignment.cc               | 11 +++++++++--
 src/lib/forest-extractor-runner.cc |  6 ++++++
 src/lib/hiero-extractor-runner.cc  |  1 +
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/alignment.h b/src/include/travatar/alignment.h
index 1ee809d..0b1362e 100644
--- a/src/include/travatar/alignment.h
+++ b/src/include/travatar/alignment.h
@@ -42,6 +42,9 @@ public:
 
     std::vector<std::set<int> > GetSrcAlignments() const;
 
+    // Throw an error if the alignment has links outside of the sentences
+    void CheckRange(int src_len, int trg_len) const;
+
 private:
 
     // Split a string in the form X-Y into an alignment pair
diff --git a/src/lib/alignment.cc b/src/lib/alignment.cc
index 3f9edee..615ffb8 100644
--- a/src/lib/alignment.cc
+++ b/src/lib/alignment.cc
@@ -28,8 +28,9 @@ Alignment::AlignmentPair Alignment::SplitAlignment(const string & str) {
     if(left_right.size() != 2)
         THROW_ERROR("Bad alignment string (must be in the format \"LENGTH ||| FPOS1-EPOS1 FPOS1-EPOS1\"" << endl << str);
     AlignmentPair ret;
-    istringstream left(left_right[0]); left >> ret.first;
-    istringstream right(left_right[1]); right >> ret.second;
+    istringstream left(left_right[0]), right(left_right[1]);
+    if(!(left >> ret.first) || !left.eof() || !(right >> ret.second) || !right.eof())
+        THROW_ERROR("Bad alignment string (positions must be numbers): " << str);
     return ret;
 }
 Alignment Alignment::FromString(const string & str) {
@@ -40,6 +41,12 @@ Alignment Alignment::FromString(const string & str) {
     return ret;
 }
 
+void Alignment::CheckRange(int src_len, int trg_len) const {
+    BOOST_FOREACH(const AlignmentPair & al, vec_)
+        if(al.first < 0 || al.first >= src_len || al.second < 0 || al.second >= trg_len)
+            THROW_ERROR("Alignment " << al.first << "-" << al.second << " is out of range for sentences of length " << src_len << " and " << trg_len);
+}
+
 void Alignment::AddAlignment(const AlignmentPair & al) {
 #ifdef LADER_SAFE
     if(al.first >= len_.first || al.second >= len_.second)
diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index fe4f552..ee8cbaa 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -92,6 +92,8 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         } catch (std::runtime_error & e) {
             THROW_ERROR("Error reading tree on line " << sent+1 << endl << src_line << endl << e.what());
         }
+        if(src_graph.get() == NULL)
+            THROW_ERROR("No source tree found on line " << sent+1 << endl << src_line);
         // { /* DEBUG */ JSONTreeIO io; io.WriteTree(*src_graph, cerr); cerr << endl; }
         // Binarizer if necessary
         if(binarizer.get() != NULL)
@@ -103,6 +105,8 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         if(trg_io.get() != NULL) {
             istringstream trg_iss(trg_line);
             boost::shared_ptr<HyperGraph> trg_graph(trg_io->ReadTree(trg_iss));
+            if(trg_graph.get() == NULL)
+                THROW_ERROR("No target tree found on line " << sent+1 << endl << trg_line);
             trg_sent = trg_graph->GetWords();
             trg_labs = trg_graph->GetLabeledSpans();    
         } else {
@@ -110,6 +114,8 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         }
         // Get alignment
         Alignment align = Alignment::FromString(align_line);
+        if(src_graph->NumNodes() > 0)
+            align.CheckRange(src_graph->GetWords().size(), trg_sent.size());
         // Do the rule extraction
         scoped_ptr<HyperGraph> rule_graph(
             extractor.ExtractMinimalRules(*src_graph, align));
diff --git a/src/lib/hiero-extractor-runner.cc b/src/lib/hiero-extractor-runner.cc
index 58e6fac..09fed48 100644
--- a/src/lib/hiero-extractor-runner.cc
+++ b/src/lib/hiero-extractor-runner.cc
@@ -60,6 +60,7 @@ void HieroExtractorRunner::Run(const ConfigHieroExtractorRunner & config) {
         Sentence src_sent = Dict::ParseWords(src_line);
         Sentence trg_sent = Dict::ParseWords(trg_line);
 
+        alignment.CheckRange(src_sent.size(), trg_sent.size());
         rules = extractor.ExtractHieroRule(alignment,src_sent,trg_sent);
 
         BOOST_FOREACH(vector<HieroRule*> rule , rules) {
-- 
2.43.0


From fb167077891d227ef74f156a42d37eb0354404f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 099/118] fix: an empty graph has no frontier

---
 src/include/travatar/hyper-graph.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index b286926..b4d7c9b 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -391,6 +391,8 @@ public:
 
     // Calculate frontier nodes and alignments for the whole graph
     void CalculateFrontiers(const std::vector<std::set<int> > & src_spans) {
+        // An empty graph has no frontier
+        if(nodes_.size() == 0) return;
         nodes_[0]->CalculateFrontier(src_spans, std::set<int>());
     }
 
-- 
2.43.0


From d333027768d228598107a93482a10ffba31c6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 100/118] fix: stop the threads of a thread pool that is
 destroyed, and report the errors of tasks

---
 src/include/travatar/thread-pool.h |  9 +++++++--
 src/lib/thread-pool.cc             | 16 +++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/thread-pool.h b/src/include/travatar/thread-pool.h
index a2ecc5c..5509296 100644
--- a/src/include/travatar/thread-pool.h
+++ b/src/include/travatar/thread-pool.h
@@ -9,6 +9,7 @@
 #include <boost/thread.hpp>
 #include <pthread.h>
 #include <queue>
+#include <string>
 
 namespace travatar {
 
@@ -19,11 +20,13 @@ class ThreadPool {
 public:
     // Create a thread pool with a certain number of threads
     ThreadPool(int size, int queue_limit = 0);
+    // Stop the threads without processing the remaining tasks
+    ~ThreadPool();
 
-    // Submit a task for execution
+    // Submit a task for execution. Throws an error if a previous task failed
     void Submit(Task * task);
 
-    // Stop the remaining values
+    // Stop the remaining values. Throws an error if one of the tasks failed
     void Stop(bool process_remaining);
     
     // Wait until all of the running threads have stopped
@@ -46,6 +49,8 @@ protected:
     bool stopping_;
     bool delete_tasks_;
     int queue_limit_;
+    // The first error that occurred in a task
+    std::string error_;
 
 };
 
diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index cefa09d..49e325f 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -13,6 +13,11 @@ ThreadPool::ThreadPool(int num_threads, int queue_limit) :
         threads_.create_thread(bind(&ThreadPool::Run, this));
 }
 
+ThreadPool::~ThreadPool() {
+    // There is nobody to report errors to any more
+    try { Stop(false); } catch(std::exception & e) { }
+}
+
 void ThreadPool::Run() {
     while(true) {
         Task* task = NULL;
@@ -27,7 +32,12 @@ void ThreadPool::Run() {
             }
         }
         if(task) {
-            task->Run();
+            try {
+                task->Run();
+            } catch(std::exception & e) {
+                boost::mutex::scoped_lock lock(mutex_);
+                if(error_.empty()) error_ = e.what();
+            }
             if(delete_tasks_)
                 delete task;
         }
@@ -41,6 +51,8 @@ void ThreadPool::Submit(Task* task) {
         THROW_ERROR("Cannot accept new jobs while ThreadPool is stopping");
     while(queue_limit_ && (int)tasks_.size() >= queue_limit_)
         thread_available_.wait(lock);
+    if(!error_.empty())
+        throw std::runtime_error(error_);
     tasks_.push(task);
     thread_needed_.notify_all();
 }
@@ -70,4 +82,6 @@ void ThreadPool::Stop(bool process_remaining) {
     }
     thread_needed_.notify_all();
     threads_.join_all();
+    if(!error_.empty())
+        throw std::runtime_error(error_);
 }
-- 
2.43.0


From 863bcacccafbc2cdac6a8b86ae1f790760a31841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 101/118] fix: refuse evaluation statistics and n-gram orders
 that do not fit the measure

---
 src/lib/eval-measure-bleu.cc | 4 +++-
 src/lib/eval-measure-nist.cc | 4 +++-
 src/lib/eval-measure.cc      | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index ace586d..6223efc 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -78,7 +78,7 @@ boost::shared_ptr<EvalStats> EvalMeasureBleu::ReadStats(const std::string & line
     if(scope_ == SENTENCE)
         ret.reset(new EvalStatsAverage);
     else
-        ret.reset(new EvalStatsBleu(std::vector<EvalStatsDataType>(), smooth_val_, prec_weight_, mean_, inverse_, calc_brev_));
+        ret.reset(new EvalStatsBleu(std::vector<EvalStatsDataType>(3*ngram_order_), smooth_val_, prec_weight_, mean_, inverse_, calc_brev_));
     ret->ReadStats(line);
     return ret;
 }
@@ -177,6 +177,8 @@ EvalMeasureBleu::EvalMeasureBleu(const std::string & config) : ngram_order_(4),
     BOOST_FOREACH(const EvalMeasure::StringPair & strs, EvalMeasure::ParseConfig(config)) {
         if(strs.first == "order") {
             ngram_order_ = boost::lexical_cast<int>(strs.second);
+            if(ngram_order_ < 1 || ngram_order_ > 1000)
+                THROW_ERROR("The n-gram order must be between 1 and 1000: " << config);
         } else if(strs.first == "smooth") {
             smooth_val_ = boost::lexical_cast<Real>(strs.second);
         } else if(strs.first == "prec") {
diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 48a4420..31e6651 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -87,7 +87,7 @@ boost::shared_ptr<EvalStats> EvalMeasureNist::ReadStats(const std::string & line
     if(scope_ == SENTENCE_NIST)
         ret.reset(new EvalStatsAverage);
     else
-        ret.reset(new EvalStatsNist(std::vector<EvalStatsDataType>(), beta_));
+        ret.reset(new EvalStatsNist(std::vector<EvalStatsDataType>(2*ngram_order_+1), beta_));
     ret->ReadStats(line);
     return ret;
 }
@@ -142,6 +142,8 @@ EvalMeasureNist::EvalMeasureNist(const std::string & config) : ngram_order_(5),
     BOOST_FOREACH(const EvalMeasure::StringPair & strs, EvalMeasure::ParseConfig(config)) {
         if(strs.first == "order") {
             ngram_order_ = boost::lexical_cast<int>(strs.second);
+            if(ngram_order_ < 1 || ngram_order_ > 1000)
+                THROW_ERROR("The n-gram order must be between 1 and 1000: " << config);
         } else if(strs.first == "beta") {
             beta_ = boost::lexical_cast<Real>(strs.second);
         } else if(strs.first == "scope") {
diff --git a/src/lib/eval-measure.cc b/src/lib/eval-measure.cc
index be84b23..184023c 100644
--- a/src/lib/eval-measure.cc
+++ b/src/lib/eval-measure.cc
@@ -83,11 +83,15 @@ bool EvalStats::Equals(const EvalStats & rhs) const {
 }
 const std::vector<EvalStatsDataType> & EvalStats::GetVals() const { return vals_; }
 void EvalStats::ReadStats(const std::string & str) {
-    vals_.resize(0);
+    std::vector<EvalStatsDataType> vals;
     EvalStatsDataType val;
     std::istringstream iss(str);
     while(iss >> val)
-        vals_.push_back(val);
+        vals.push_back(val);
+    // The number of statistics depends only on the evaluation measure
+    if(!iss.eof() || vals.size() != vals_.size())
+        THROW_ERROR("Expecting " << vals_.size() << " statistics, but got: " << str);
+    vals_ = vals;
 }
 std::string EvalStats::WriteStats() {
     std::ostringstream oss;
-- 
2.43.0


From c528f8779dd07328bff71a161c8ede57f2dac053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 102/118] fix: refuse to tune without hypotheses

---
 src/lib/batch-tune-runner.cc | 7 +++++--
 src/lib/tune-mert.cc         | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index 7829ad0..1f3266a 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -219,15 +219,18 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
         else          LoadForests(sys_in, *tune);
     }
 
+    if(tune->NumExamples() == 0)
+        THROW_ERROR("No hypotheses to tune on were found in " << sys_file);
+
     // If there is any shared initialization to be done, do it here
     tune->Init(weights);
 
-    // Build the thread pool
+    // Build the thread pool (destroyed before the tasks that it runs)
+    vector<boost::shared_ptr<BatchTuneRunnerTask> > tasks(runs);
     ThreadPool pool(threads, threads*5);
     pool.SetDeleteTasks(false);
     
     // Set up tasks for each amount of weights
-    vector<boost::shared_ptr<BatchTuneRunnerTask> > tasks(runs);
     tasks[0] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(0, "Init", *tune, weights));
     pool.Submit(tasks[0].get());
 
diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index c9b716d..eeb4aa6 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -53,6 +53,8 @@ LineSearchResult TuneMert::LineSearch(
             }
         }
     }
+    if(!base_stats)
+        THROW_ERROR("No hypotheses to tune on");
     boundaries[REAL_MAX] = base_stats->Times(0);
     // if(boundaries.size() == 0) return make_pair(-REAL_MAX, -REAL_MAX);
     // Find the place with the best score on the plane
-- 
2.43.0


From 70d7c8e497457b99a1fce86fd68a8008c736b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 103/118] fix: refuse rules whose target side does not fit the
 source side, and build tails for unlabeled rules with consider_trg

---
 src/include/travatar/lookup-table.h |  3 +++
 src/lib/dict.cc                     |  1 +
 src/lib/lookup-table-cfglm.cc       |  3 ++-
 src/lib/lookup-table-hash.cc        |  1 +
 src/lib/lookup-table-marisa.cc      |  1 +
 src/lib/lookup-table.cc             | 19 ++++++++++++++++++-
 src/lib/rule-fsm.cc                 | 12 +++++++++---
 7 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/lookup-table.h b/src/include/travatar/lookup-table.h
index c116c05..be95fc0 100644
--- a/src/include/travatar/lookup-table.h
+++ b/src/include/travatar/lookup-table.h
@@ -73,6 +73,9 @@ public:
     bool GetConsiderTrg() { return consider_trg_; } 
 protected:
 
+    // Throw an error if the target side uses variables that do not exist on the source side
+    static void CheckRule(const std::vector<std::string> & src, const CfgDataVector & trg_data, const std::string & line);
+
     // Match a single node
     // For example S(NP(PRN("he")) x0:VP) will match for "he" and VP
     // If matching a non-terminal (e.g. VP), advance the state and push "node"
diff --git a/src/lib/dict.cc b/src/lib/dict.cc
index 6c9a8c2..8cb4ca1 100644
--- a/src/lib/dict.cc
+++ b/src/lib/dict.cc
@@ -183,6 +183,7 @@ CfgData Dict::ParseAnnotatedWords(const std::string & str) {
             for(end = 1; end < bs && buff[end] >= '0' && buff[end] <= '9'; end++);
             if(end == 1) THROW_ERROR("Bad rule string. All non-terminals must have an ID (e.g. 'x0') none was found (e.g. 'x'): " << str);
             int id = lexical_cast<int>(buff.substr(1, end-1));
+            if(id > 100000) THROW_ERROR("Bad rule string. The non-terminal ID " << id << " is too large: " << str);
             data.words.push_back(-1 - id);
             if(end != bs) {
                 if(buff[end] != ':') THROW_ERROR("Bad rule string. Non-terminals can only be followed by a space or colon, but a different character '" << buff[end] << "' was found: " << str);
diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index d8866bb..83e9cbc 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -112,7 +112,8 @@ void LookupTableCFGLM::AddRuleFSM(RuleFSM* fsm) {
         for(size_t i = 0; i < val.first.size(); i++) inv_heads[i] = -1 - val.first[i];
         std::string str((char*)&inv_heads[0], inv_heads.size()*sizeof(WordId));
         marisa::Agent ag; ag.set_query(str.c_str(), str.length());
-        assert(fsm->GetTrie().lookup(ag));
+        if(!fsm->GetTrie().lookup(ag))
+            THROW_ERROR("Internal error when adding unary rules");
         BOOST_FOREACH(TranslationRuleHiero * rule, fsm->GetRules()[ag.key().id()]) {
             //cerr << "Adding rule: " << *rule << " at " << val.first << endl;
             unary_ids_[val.first].push_back(unary_rules_.size());
diff --git a/src/lib/lookup-table-hash.cc b/src/lib/lookup-table-hash.cc
index 53a1f7a..f57226a 100644
--- a/src/lib/lookup-table-hash.cc
+++ b/src/lib/lookup-table-hash.cc
@@ -73,6 +73,7 @@ LookupTableHash * LookupTableHash::ReadFromRuleTable(std::istream & in) {
             ret->AddToMatches(partial.str());
         }
         CfgDataVector trg_data = Dict::ParseAnnotatedVector(columns[1]);
+        CheckRule(words, trg_data, line);
         SparseVector features = Dict::ParseSparseVector(columns[2]);
         ret->AddRule(columns[0], new TranslationRule(trg_data, features));
     }
diff --git a/src/lib/lookup-table-marisa.cc b/src/lib/lookup-table-marisa.cc
index f559163..d2ee712 100644
--- a/src/lib/lookup-table-marisa.cc
+++ b/src/lib/lookup-table-marisa.cc
@@ -47,6 +47,7 @@ LookupTableMarisa * LookupTableMarisa::ReadFromRuleTable(std::istream & in) {
         if(columns.size() < 3) { delete ret; THROW_ERROR("Bad line in rule table: " << line); }
         vector<WordId> trg_words, trg_syms;
         CfgDataVector trg_data = Dict::ParseAnnotatedVector(columns[1]);
+        CheckRule(Tokenize(columns[0], ' '), trg_data, line);
         SparseVector features = Dict::ParseSparseVector(columns[2]);
         TranslationRule* rule = new TranslationRule(trg_data, features);
         if(rules.size() == 0 || columns[0] != last_src) {
diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 0773c0d..6dafab5 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -57,6 +57,23 @@ vector<boost::shared_ptr<LookupState> > LookupTable::LookupRules(const HyperNode
     return ret;
 }
 
+void LookupTable::CheckRule(const vector<string> & src, const CfgDataVector & trg_data, const string & line) {
+    // Count the variables, which unlike labels are not followed by an open paren
+    int vars = 0;
+    for(size_t i = 0; i < src.size(); i++)
+        if(src[i][0] == 'x' && src[i].find(':') != string::npos && (i+1 == src.size() || src[i+1] != "("))
+            vars++;
+    if((int)trg_data.size() < GlobalVars::trg_factors)
+        THROW_ERROR("Expected " << GlobalVars::trg_factors << " target factors in rule table: " << line);
+    BOOST_FOREACH(const CfgData & trg, trg_data) {
+        BOOST_FOREACH(WordId wid, trg.words)
+            if(-1 - wid >= vars)
+                THROW_ERROR("Target variable that does not exist in the source in rule table: " << line);
+        if((int)trg.syms.size() > vars)
+            THROW_ERROR("Target variable that does not exist in the source in rule table: " << line);
+    }
+}
+
 HyperGraph * LookupTable::TransformGraph(const HyperGraph & parse) const {
     if (consider_trg_) {
         return TransformGraphSrcTrg(parse);
@@ -195,7 +212,7 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                 HyperEdge * next_edge = new HyperEdge(head_node);
                 unsigned int penalty = 0;
                 bool child_ok = true;
-                for (size_t i=0; child_ok && i < trg_data[0].GetSymSize(); ++i) {
+                for (size_t i=0; child_ok && i < non_terms.size(); ++i) {
                     // the head of the child's nt
                     vector<WordId> child_head(trg_data.size(),0);
                     for (size_t j=0; j < trg_data.size(); ++j) {
diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index b1ee886..85a7570 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -32,17 +32,23 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
             Dict::ParseSparseVector(columns[2]),
             src_data
         );
-        if(src_data.syms.size() == 1 && src_data.words.size() == 1)
-            unaries[rule->GetChildHeadLabels(0)].insert(rule->GetHeadLabels());
         // Sanity check
-        BOOST_FOREACH(const CfgData & trg_data, rule->GetTrgData())
+        if((int)trg_data.size() < GlobalVars::trg_factors)
+            THROW_ERROR("Expected " << GlobalVars::trg_factors << " target factors in rule table: " << endl << line);
+        BOOST_FOREACH(const CfgData & trg_data, rule->GetTrgData()) {
             if(trg_data.syms.size() != src_data.syms.size())
                 THROW_ERROR("Mismatched number of non-terminals in rule table: " << endl << line);
+            BOOST_FOREACH(WordId trgid, trg_data.words)
+                if(-1 - trgid >= (int)src_data.syms.size())
+                    THROW_ERROR("Non-terminal ID is larger than number of symbols: " << endl << line);
+        }
         if(src_data.words.size() == 0)
             THROW_ERROR("Empty sources in a rule are not allowed: " << endl << line);
         BOOST_FOREACH(WordId srcid, src_data.words)
             if(-1 - srcid >= (int)src_data.syms.size())
                 THROW_ERROR("Non-terminal ID is larger than number of symbols: " << endl << line);
+        if(src_data.syms.size() == 1 && src_data.words.size() == 1)
+            unaries[rule->GetChildHeadLabels(0)].insert(rule->GetHeadLabels());
 
         string key_str = CreateKey(src_data, trg_data);
         rules[key_str].push_back(rule);
-- 
2.43.0


From 07b05c358cbbac01e8c1cdbe1207b873e2560739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 104/118] fix: refuse rules that use a variable twice in
 incremental search

---
 src/lib/lm-composer-incremental.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 64846fc..dd2ada0 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -72,7 +72,7 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
                 node_id[tid] = child->GetId();
             }
         }
-        if(nt != (int)tails.size())
+        if(nt != (int)tails.size() || find(tails.begin(), tails.end(), (HyperNode*)NULL) != tails.end())
             THROW_ERROR("Incremental search requires that every non-terminal is used once on the target side: " << *old_edge);
         // Skip duplicate edges
         if(node_memo.find(node_id) != node_memo.end())
-- 
2.43.0


From 156e7b9309f0f26a69cf814b21e27eb2b283da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 105/118] fix: refuse rules in JSON forests that use variables
 without tails, and keep words that only consist of split characters

---
 src/lib/caser.cc         |  4 ++--
 src/lib/hyper-graph.cc   |  2 ++
 src/lib/mert-geometry.cc | 10 +++++++---
 src/lib/tree-io.cc       | 25 ++++++++++++++++++-------
 src/lib/word-splitter.cc |  3 +++
 5 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/lib/caser.cc b/src/lib/caser.cc
index ae26bc1..14fe3a6 100644
--- a/src/lib/caser.cc
+++ b/src/lib/caser.cc
@@ -59,7 +59,7 @@ void Caser::ToTitle(HyperGraph & graph) const {
     ToTitle(graph.GetWords());
     vector<bool> first = SentenceFirst(graph.GetWords());
     BOOST_FOREACH(HyperNode* node, graph.GetNodes()) {
-        if(node->IsTerminal() && first[node->GetSpan().first])
+        if(node->IsTerminal() && first.at(node->GetSpan().first))
             node->SetSym(ToTitle(node->GetSym()));
     }
 }
@@ -82,7 +82,7 @@ void Caser::TrueCase(HyperGraph & graph) const {
     TrueCase(graph.GetWords());
     vector<bool> first = SentenceFirst(graph.GetWords());
     BOOST_FOREACH(HyperNode* node, graph.GetNodes()) {
-        if(node->IsTerminal() && first[node->GetSpan().first])
+        if(node->IsTerminal() && first.at(node->GetSpan().first))
             node->SetSym(TrueCase(node->GetSym()));
     }
 }
diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index ce859ed..a5791c3 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -454,6 +454,8 @@ CfgData HyperPath::CalcTranslation(int factor, int & idx) {
         if(wid >= 0) {
             ret.words.push_back(wid);
         } else {
+            if(-1 - wid >= (int)child_trans.size())
+                THROW_ERROR("Variable " << -1 - wid << " does not exist in " << *edges_[my_id]);
             ret.AppendChild(child_trans[-1 - wid]);
         }
     }
diff --git a/src/lib/mert-geometry.cc b/src/lib/mert-geometry.cc
index 0be1d19..28dd853 100644
--- a/src/lib/mert-geometry.cc
+++ b/src/lib/mert-geometry.cc
@@ -168,16 +168,20 @@ void MertLine::ConstructTranslation(const vector<WordId> & sent, vector<Sentence
         cur = cur->p1.get();
     }
     for(int factor = 0; factor < (int)cur->edge->GetTrgData().size(); factor++) {
-        size_t ant_size = ant_trans.size();
-        assert(ant_size == cur->edge->GetTails().size());
+        int ant_size = ant_trans.size();
+        if(factor >= (int)trans->size())
+            THROW_ERROR("More target factors than expected in " << *cur->edge);
+        assert(ant_size == (int)cur->edge->GetTails().size());
         BOOST_FOREACH(WordId id, cur->edge->GetTrgData()[factor].words) {
             if(id == unk_id) {
                 pair<int,int> span = cur->edge->GetHead()->GetSpan();
-                if(span.second-span.first != 1) THROW_ERROR("Bad span in unknown rule: " << span);
+                if(span.second-span.first != 1 || span.first < 0 || span.second > (int)sent.size()) THROW_ERROR("Bad span in unknown rule: " << span);
                 (*trans)[factor].push_back(sent[span.first]);
             } else if(id >= 0) {
                 (*trans)[factor].push_back(id);
             } else {
+                if(ant_size + id < 0)
+                    THROW_ERROR("Variable " << -1 - id << " does not exist in " << *cur->edge);
                 // Because tails are in reverse order, we must access them accordingly
                 BOOST_FOREACH(WordId cid, ant_trans[ant_size + id][factor])
                     (*trans)[factor].push_back(cid);
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 5f35e3c..0088ae5 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -49,24 +49,35 @@ bool HasCycle(const HyperGraph & graph) {
     return false;
 }
 
+// Get the word that a terminal node covers
+WordId GetTerminalWord(const vector<WordId> & words, const HyperNode & node) {
+    int pos = node.GetSpan().first;
+    if(pos < 0 || pos >= (int)words.size())
+        THROW_ERROR("Terminal node " << Dict::WSym(node.GetSym()) << " is not in a sentence of length " << words.size());
+    return words[pos];
+}
+
 // Make sure that a graph that was read in is consistent with its sentence
 void CheckGraph(const HyperGraph & graph) {
     int len = graph.GetWords().size();
     BOOST_FOREACH(const HyperNode * node, graph.GetNodes()) {
         const pair<int,int> & span = node->GetSpan();
-        if(node->GetEdges().size() == 0) {
+        // Rule graphs may have neither words nor edges for a node
+        if(len == 0) {
+            continue;
+        } else if(node->GetEdges().size() == 0) {
             if(span.first < 0 || span.first >= span.second || span.second > len)
                 THROW_ERROR("Node " << Dict::WSym(node->GetSym()) << "[" << span.first << "," << span.second << "] is not in a sentence of length " << len);
         // Graphs resulting from decoding may not have spans
-        } else if(len > 0 && span != make_pair(-1,-1)) {
+        } else if(span != make_pair(-1,-1)) {
             if(span.first < 0 || span.first > span.second || span.second > len)
                 THROW_ERROR("Node " << Dict::WSym(node->GetSym()) << "[" << span.first << "," << span.second << "] is not in a sentence of length " << len);
         }
     }
-    // Children must lie within their parents
+    // The children in a parse must lie within their parents
     BOOST_FOREACH(const HyperEdge * edge, graph.GetEdges()) {
         const pair<int,int> & head = edge->GetHead()->GetSpan();
-        if(len == 0 || head == make_pair(-1,-1)) continue;
+        if(len == 0 || head == make_pair(-1,-1) || edge->GetTrgData().size() > 0) continue;
         BOOST_FOREACH(const HyperNode * tail, edge->GetTails()) {
             const pair<int,int> & span = tail->GetSpan();
             if(span != make_pair(-1,-1) && (span.first < head.first || span.second > head.second))
@@ -176,7 +187,7 @@ void PennTreeIO::WriteNode(const vector<WordId> & words,
         }
         out << ")";
     } else {
-        out << Dict::WSym(words[node.GetSpan().first]);
+        out << Dict::WSym(GetTerminalWord(words, node));
     }
 }
 
@@ -241,7 +252,7 @@ void RuleTreeIO::WriteNode(const vector<WordId> & words,
         }
         out << ')';
     } else {
-        out << '"' << Dict::WSym(words[node.GetSpan().first]) << '"';
+        out << '"' << Dict::WSym(GetTerminalWord(words, node)) << '"';
     }
 }
 
@@ -488,7 +499,7 @@ void MosesXMLTreeIO::WriteNode(const vector<WordId> & words,
         }
         out << " </tree>";
     } else {
-        out << Dict::EncodeXML(Dict::WSym(words[node.GetSpan().first]));
+        out << Dict::EncodeXML(Dict::WSym(GetTerminalWord(words, node)));
     }
 }
 
diff --git a/src/lib/word-splitter.cc b/src/lib/word-splitter.cc
index a874258..697383a 100644
--- a/src/lib/word-splitter.cc
+++ b/src/lib/word-splitter.cc
@@ -23,6 +23,9 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
             new_words.push_back(old_word);
         else
             new_words = StringSplit(old_word);
+        // Every word must have at least one part
+        if(new_words.size() == 0)
+            new_words.push_back(old_word);
         BOOST_FOREACH(const std::string & word, new_words) {
             ids[i].push_back(j++);
             new_wids.push_back(Dict::WID(word));
-- 
2.43.0


From 060d6df749669803a875c04cbb8115d1ba032672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 106/118] fix: refuse forests with terminals that are not in
 their sentence

---
 src/include/travatar/hyper-graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index b4d7c9b..5af5fa5 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -436,7 +436,7 @@ public:
     const std::vector<HyperEdge*> & GetEdges() const { return edges_; }
     std::vector<HyperEdge*> & GetEdges() { return edges_; }
     int NumEdges() const { return edges_.size(); }
-    WordId GetWord(int i) const { return words_[i]; }
+    WordId GetWord(int i) const { return words_.at(i); }
     const Sentence & GetWords() const { return words_; }
     Sentence & GetWords() { return words_; }
     void SetWords(const Sentence & words) { words_ = words; }
-- 
2.43.0


From 19e0064a8682ad367cc93349a0a180becf4f9c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 107/118] fix: keep the features, with weights of zero, when
 tuned weights are all zero

---
 script/mert/update-weights.pl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/script/mert/update-weights.pl b/script/mert/update-weights.pl
index 7a87dd9..d0733fa 100755
--- a/script/mert/update-weights.pl
+++ b/script/mert/update-weights.pl
@@ -23,7 +23,7 @@ if(@ARGV != 1) {
     exit 1;
 }
 
-my (@weights, @names, %wmap);
+my (@weights, @names, @oldnames, %wmap);
 if($LOG) {
     open FILE1, "<:utf8", $LOG or die "Couldn't open $LOG\n";
     while(<FILE1>) {
@@ -71,7 +71,8 @@ while(<FILE0>) {
     last if not $_;
     my ($oldname, $oldweight) = split(/=/);
     my $newweight;
-    if(!%wmap) {
+    push @oldnames, $oldname;
+    if($LOG) {
         die "Weight sizes don't match" if not @weights;
         my $newname = shift(@names);
         $newweight = shift(@weights);
@@ -79,7 +80,9 @@ while(<FILE0>) {
         print "$oldname=$newweight\n";
     }
 }
-if(%wmap) {
+if(not $LOG) {
+    # Weights of zero are not listed, but a configuration without weights cannot be read
+    %wmap = map { $_ => 0 } @oldnames if not %wmap;
     while(my ($k,$v) = each(%wmap)) {
         print "$k=$v\n";
     }
-- 
2.43.0


From 9803076fc35fe1caa953c116c1caeb8b4f0d9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 108/118] fix: do not resume tuning from a configuration that
 was written in part

---
 script/mert/mert-travatar.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/script/mert/mert-travatar.pl b/script/mert/mert-travatar.pl
index 80116bd..700f924 100755
--- a/script/mert/mert-travatar.pl
+++ b/script/mert/mert-travatar.pl
@@ -84,7 +84,7 @@ if ($RESUME) {
 }
 if ($iter_start == 0) {
   if($NO_FILTER_RT) {
-      safesystem("cp $TRAVATAR_CONFIG $WORKING_DIR/run1.ini");
+      safesystem("cp $TRAVATAR_CONFIG $WORKING_DIR/run1.ini") or die "couldn't copy to run1.ini";
   } else {
       my $format = ($IN_FORMAT ? "-src-format $IN_FORMAT" : "");
       safesystem("$TRAVATAR_DIR/script/train/filter-model.pl $TRAVATAR_CONFIG $WORKING_DIR/run1.ini $WORKING_DIR/filtered \"$TRAVATAR_DIR/script/train/filter-rule-table.py $SRC\"") or die "Couldn't filter";
@@ -130,7 +130,7 @@ foreach $iter ($iter_start .. $MAX_ITERS) {
         my $scores = join(",", map { "$WORKING_DIR/run$_.scores.dat" } (1 .. $iter));
         safesystem("$MOSES_DIR/bin/mert -d $weight_cnt --scconfig case:true --scfile $scores --ffile $feats --ifile $prev.init.opt -n 20 > $prev.mert.out 2> $prev.mert.log") or die "couldn't mert"; 
         print `grep Best $prev.mert.log`;
-        safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -log $prev.mert.log $prev.ini > $next.ini") or die "couldn't make init opt";
+        safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -log $prev.mert.log $prev.ini > $next.ini.part && mv $next.ini.part $next.ini") or die "couldn't make init opt";
     } elsif($MERT_SOLVER eq "batch-tune") {
         if($CAND_TYPE eq "nbest") {
             my $nbests = join(" ", map { "$WORKING_DIR/run$_.uniq" } (1 .. $iter-1));
@@ -147,7 +147,7 @@ foreach $iter ($iter_start .. $MAX_ITERS) {
             my $forests = join(",", map { "$WORKING_DIR/run$_.forest" } (1 .. $iter));
             safesystem("$TRAVATAR_DIR/src/bin/batch-tune -trg_factors $TRG_FACTORS -threads $THREADS -forest $forests -eval \"$EVAL\" -weight_in $prev.weights $TUNE_OPTIONS $REF > $next.weights 2> $prev.tune.log") or die "batch-tune failed";
         }
-        safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -weights $next.weights $prev.ini > $next.ini") or die "couldn't make init opt";
+        safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -weights $next.weights $prev.ini > $next.ini.part && mv $next.ini.part $next.ini") or die "couldn't make init opt";
     }
     my %wprev = load_weights("$prev.ini");
     my %wnext = load_weights("$next.ini");
-- 
2.43.0


From d06b4f6b764fef038b6968983db3dda2c488d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 109/118] fix: stop tuning when the new entries of the n-best
 list cannot be found

---
 script/mert/mert-travatar.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/mert/mert-travatar.pl b/script/mert/mert-travatar.pl
index 700f924..6a66e40 100755
--- a/script/mert/mert-travatar.pl
+++ b/script/mert/mert-travatar.pl
@@ -134,7 +134,7 @@ foreach $iter ($iter_start .. $MAX_ITERS) {
     } elsif($MERT_SOLVER eq "batch-tune") {
         if($CAND_TYPE eq "nbest") {
             my $nbests = join(" ", map { "$WORKING_DIR/run$_.uniq" } (1 .. $iter-1));
-            safesystem("$TRAVATAR_DIR/script/mert/nbest-uniq.pl $nbests < $WORKING_DIR/run$iter.nbest > $WORKING_DIR/run$iter.uniq");
+            safesystem("$TRAVATAR_DIR/script/mert/nbest-uniq.pl $nbests < $WORKING_DIR/run$iter.nbest > $WORKING_DIR/run$iter.uniq") or die "couldn't find the new entries of the n-best list";
             if(not defined($STAT_GENERATOR)) {
                 safesystem("$TRAVATAR_DIR/src/bin/batch-tune -trg_factors $TRG_FACTORS -threads $THREADS -nbest $WORKING_DIR/run$iter.uniq -stat_out $WORKING_DIR/run$iter.stats -eval \"$EVAL\" $REF 2> $prev.stats.log") or die "batch-tune stats extraction failed";
             } else {
-- 
2.43.0


From 90ffea6c9ca99ef08bc6c2fa55fef85c95b1cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 110/118] fix: record the language model score in incremental
 search when its weight is zero

---
 .../travatar/lm-composer-incremental.h        |  4 +++
 src/lib/lm-composer-incremental.cc            | 27 +++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/lm-composer-incremental.h b/src/include/travatar/lm-composer-incremental.h
index 1f3b872..81ff015 100644
--- a/src/include/travatar/lm-composer-incremental.h
+++ b/src/include/travatar/lm-composer-incremental.h
@@ -118,6 +118,10 @@ protected:
     template <class LMType>
     HyperGraph * TransformGraphTemplate(const HyperGraph & hg) const;
 
+    // Add the language model feature of every edge
+    template <class LMType>
+    void AddLMFeatures(const LMType & lm, const std::vector<HyperNode*> & nodes) const;
+
     // Calculate a single vertex
     template <class LMType>
     search::Vertex* CalculateVertex(
diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index dd2ada0..46cf5e9 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -93,8 +93,6 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
         edge->SetHead(node);
         edge->SetTails(tails);
         hg->AddEdge(edge); node->AddEdge(edge);
-        Real lm_score = (edge_score - lm_unk * lm_unk_weight_ - edge->GetScore())/lm_weight_;
-        edge->GetFeatures().Add(lm_id_, lm_score);
         if(lm_unk)
             edge->GetFeatures().Add(lm_unk_id_, lm_unk);
         edge->SetScore(edge_score);
@@ -250,6 +248,30 @@ HyperGraph * LMComposerIncremental::TransformGraph(const HyperGraph & parse) con
     }
 }
 
+// Add the language model feature of every edge. This is calculated from the words, as it
+// cannot be recovered from the scores of the search when the weight of the model is zero
+template <class LMType>
+void LMComposerIncremental::AddLMFeatures(const LMType & lm, const vector<HyperNode*> & nodes) const {
+    LMData* data = lm_data_[0];
+    // The states of the nodes, where children always come before their parents and the root is last
+    vector<lm::ngram::ChartState> states(nodes.size());
+    for(size_t i = 1; i < nodes.size(); i++) {
+        bool root = (i == nodes.size()-1);
+        BOOST_FOREACH(HyperEdge * edge, nodes[i]->GetEdges()) {
+            lm::ngram::RuleScore<LMType> scorer(lm, states[i]);
+            if(root) scorer.BeginSentence();
+            BOOST_FOREACH(WordId wid, edge->GetTrgData()[data->GetFactor()].words) {
+                if(wid < 0)
+                    scorer.NonTerminal(states[edge->GetTail(-1-wid)->GetId()], 0);
+                else
+                    scorer.Terminal(data->GetMapping(wid));
+            }
+            if(root) scorer.Terminal(lm.GetVocabulary().EndSentence());
+            edge->GetFeatures().Add(data->GetFeatureName(), scorer.Finish());
+        }
+    }
+}
+
 template <class LMType>
 HyperGraph * LMComposerIncremental::TransformGraphTemplate(const HyperGraph & parse) const {
 
@@ -284,6 +306,7 @@ HyperGraph * LMComposerIncremental::TransformGraphTemplate(const HyperGraph & pa
     vector<HyperNode*> & nodes = ret->GetNodes();
     // Swap the root into the first position, or return an empty graph if there is none
     if(!empty) {
+        AddLMFeatures(*static_cast<LMType*>(data->GetLM()), nodes);
         nodes[0] = nodes[nodes.size()-1];
         nodes.resize(nodes.size()-1);
         nodes[0]->SetId(0);
-- 
2.43.0


From ba633bc6195a231e9ea7fe529032c0e7eb844edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 111/118] fix: let tuning threads that share a forest take
 turns at scoring it

---
 src/include/travatar/tuning-example-forest.h |  4 ++++
 src/lib/tuning-example-forest.cc             | 13 +++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/include/travatar/tuning-example-forest.h b/src/include/travatar/tuning-example-forest.h
index c394cdb..11f6d13 100644
--- a/src/include/travatar/tuning-example-forest.h
+++ b/src/include/travatar/tuning-example-forest.h
@@ -5,6 +5,7 @@
 #include <travatar/tuning-example.h>
 #include <travatar/sentence.h>
 #include <boost/shared_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <set>
 #include <cfloat>
 
@@ -75,6 +76,9 @@ protected:
 
     EvalMeasure * measure_;
     boost::shared_ptr<HyperGraph> forest_;
+    // The scores in the forest are changed for every set of weights, so tuning
+    // threads that share this example must take turns
+    mutable boost::mutex forest_mutex_;
     std::vector<Sentence> refs_;
     // The score that the best hypothesis in the forest achieves
     Real oracle_score_;
diff --git a/src/lib/tuning-example-forest.cc b/src/lib/tuning-example-forest.cc
index 8c4628c..0696de6 100644
--- a/src/lib/tuning-example-forest.cc
+++ b/src/lib/tuning-example-forest.cc
@@ -80,6 +80,7 @@ void TuningExampleForest::CountWeights(set<WordId> & weights) {
 // Calculate the potential gain for a single example given the current weights
 SparseMap TuningExampleForest::CalculatePotentialGain(const SparseMap & weights) {
     // Find the best according to the weights
+    boost::mutex::scoped_lock lock(forest_mutex_);
     forest_->ResetViterbiScores();
     Weights wval(weights);
     forest_->ScoreEdges(wval);
@@ -133,10 +134,14 @@ ConvexHull TuningExampleForest::CalculateConvexHull(
         }
     }
     // Calculate the score of the current best hypothesis
-    forest_->ResetViterbiScores();
-    Weights wval(weights);
-    forest_->ScoreEdges(wval);
-    NbestList nbest_list = forest_->GetNbest(1);
+    NbestList nbest_list;
+    {
+        boost::mutex::scoped_lock lock(forest_mutex_);
+        forest_->ResetViterbiScores();
+        Weights wval(weights);
+        forest_->ScoreEdges(wval);
+        nbest_list = forest_->GetNbest(1);
+    }
     EvalStatsPtr curr_stats = measure_->CalculateCachedStats(refs_, nbest_list[0]->GetTrgData(), id_);
     curr_stats->TimesEquals(mult_);
     // If we are not active, return the simple convex hull
-- 
2.43.0


From 5e2586529d7efaad7a592744dba6e821163f9658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:36 +0000
Subject: [PATCH 112/118] fix: keep all sentences when interleaved parts of a
 corpus differ in length after cleaning

---
 script/preprocess/preprocess.pl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index 7557009..92821fd 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -504,10 +504,11 @@ sub cat_files {
         } @in;
         open FILE0, ">:utf8", $out or die "Couldn't open $out";
         my $done = @fh;
-        while($done == @fh) {
+        # The files can have different numbers of lines after cleaning
+        while($done) {
             $done = 0;
             foreach my $fhin (@fh) {
-                last if not defined ($_ = <$fhin>);
+                next if not defined ($_ = <$fhin>);
                 print FILE0;
                 $done++;
             }
-- 
2.43.0


From a69b4645e798188df0bcbab513098b22b7f3057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:36 +0000
Subject: [PATCH 113/118] fix: do not stop when a part of the corpus has no
 forests to combine

---
 script/preprocess/preprocess.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index 92821fd..02a5ec9 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -303,7 +303,8 @@ sub run_forest_parsing {
     -e "$PREF/for" or mkdir "$PREF/for";
     foreach my $i ("", map{".$_"} @suffixes) {
         safesystem("$TRAVATAR_DIR/script/tree/replace-failed-parse.pl -format egret $PREF/treefor/$lang$i $PREF/egretfor/$lang$i $SPLIT_CMD > $PREF/for/$lang$i") if not -e "$PREF/for/$lang$i";
-        die "Combining forests failed on en$i" if( &$file_len_func("$PREF/for/$lang$i") == 0);
+        # When there are few sentences some of the parts can be empty
+        die "Combining forests failed on $lang$i" if( &$file_len_func("$PREF/for/$lang$i") == 0 and &$file_len_func("$PREF/treefor/$lang$i") != 0);
     }
 
     # Combine and lowercase the forest
-- 
2.43.0


From 1fd6d84c9c145439a0d57e0cd9839a2933324c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 114/118] fix: keep forests in one piece when putting
 interleaved parts together

---
 script/preprocess/preprocess.pl | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index 02a5ec9..96e8923 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -505,11 +505,13 @@ sub cat_files {
         } @in;
         open FILE0, ">:utf8", $out or die "Couldn't open $out";
         my $done = @fh;
+        # Forests have several lines per sentence
+        my $forest = ($out =~ m!/(treefor|egretfor|forlow|fortrue)/[^/]*$!);
         # The files can have different numbers of lines after cleaning
         while($done) {
             $done = 0;
             foreach my $fhin (@fh) {
-                next if not defined ($_ = <$fhin>);
+                next if not defined ($_ = ($forest ? read_forest($fhin) : <$fhin>));
                 print FILE0;
                 $done++;
             }
@@ -520,6 +522,19 @@ sub cat_files {
     }
 }
 
+# Read a single Egret forest, which ends with an empty line
+sub read_forest {
+    my $fh = shift;
+    # The header, the words, and the first edge (the latter two are empty for failed parses)
+    my @forest = grep { defined $_ } map { scalar(<$fh>) } (1 .. 3);
+    return undef if not @forest;
+    while(defined(my $line = <$fh>)) {
+        push @forest, $line;
+        last if $line eq "\n";
+    }
+    return join("", @forest);
+}
+
 sub split_lens {
     my ($file, $suffs, $lens) = @_;
     open FILE0, "<:utf8", $file or die "Couldn't open $file\n";
-- 
2.43.0


From 617d9339f0b185f67ef82245d0a7eac3f689c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 115/118] fix: do not remove plus signs from segmented text
 when preprocessing

---
 script/preprocess/preprocess.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index 96e8923..df34235 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -229,7 +229,7 @@ sub tokenize_cmd {
     elsif($_[0] =~ /^(ja|zh)$/) { 
         my $mod = ($_[1] ? $_[1] : $KYTEA_DEFAULT_MODEL{$_[0]});
         die "Must specify a KyTea model for $_[0]" if(not $mod);
-        return "$KYTEA_DIR/src/bin/kytea -notags -wsconst D -model $mod INFILE | sed \"s/[\t ]+/ /g; s/^ +//g; s/ +\$//g; s/ \\\\\\\\ //g\" > OUTFILE";
+        return "$KYTEA_DIR/src/bin/kytea -notags -wsconst D -model $mod INFILE | sed -E \"s/[\t ]+/ /g; s/^ +//g; s/ +\$//g; s/ \\\\\\\\ //g\" > OUTFILE";
     }
     else { die "Cannot tokenize $_[0]"; }
 }
-- 
2.43.0


From 37fd8d851b8ecdd0e3c36772ca7d7c549c796b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 116/118] fix: use the symmetrization method that was asked for
 when training

---
 script/train/train-travatar.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 4bca60d..eefb1ec 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -233,7 +233,7 @@ if(not $ALIGN_FILE) {
         my $GIZA_TRGSRC_CMD = "$GIZA -CoocurrenceFile $TSPREF.cooc -c $TSPREF.snt -m1 5 -m2 0 -m3 3 -m4 3 -model1dumpfrequency 1 -model4smoothfactor 0.4 -nodumps 1 -nsmooth 4 -o $TSPREF.giza -onlyaldumps 1 -p0 0.999 -s $TRG_VCB -t $SRC_VCB";
         run_two($GIZA_SRCTRG_CMD, $GIZA_TRGSRC_CMD);
         # Symmetrize the alignments
-        safesystem("$TRAVATAR_DIR/script/train/symmetrize.pl $WORK_DIR/align/src-trg.giza.A3.final $WORK_DIR/align/trg-src.giza.A3.final > $ALIGN_FILE") or die;
+        safesystem("$TRAVATAR_DIR/script/train/symmetrize.pl -sym $SYMMETRIZE $WORK_DIR/align/src-trg.giza.A3.final $WORK_DIR/align/trg-src.giza.A3.final > $ALIGN_FILE") or die;
     } else {
         die "Unknown alignment type $ALIGN";
     }
-- 
2.43.0


From 610ca5ecf4a6cd803a5642a3994baba09f56a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 117/118] fix: keep using files given by the user when resuming
 training

---
 script/train/train-travatar.pl | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index eefb1ec..df23769 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -466,14 +466,15 @@ sub get_ready_file {
 }
 
 sub set_processed {
-    $SRC_WORDS    = get_ready_file('SRC_WORDS');
-    $TRG_WORDS    = get_ready_file('TRG_WORDS');
-    $ALIGN_FILE   = get_ready_file('ALIGN_FILE');
-    $LEX_SRCTRG   = get_ready_file('LEX_SRCTRG');
-    $LEX_TRGSRC   = get_ready_file('LEX_TRGSRC');
+    # Files that were given by the user are used in any case
+    $SRC_WORDS    = get_ready_file('SRC_WORDS') if not $SRC_WORDS;
+    $TRG_WORDS    = get_ready_file('TRG_WORDS') if not $TRG_WORDS;
+    $ALIGN_FILE   = get_ready_file('ALIGN_FILE') if not $ALIGN_FILE;
+    $LEX_SRCTRG   = get_ready_file('LEX_SRCTRG') if not $LEX_SRCTRG;
+    $LEX_TRGSRC   = get_ready_file('LEX_TRGSRC') if not $LEX_TRGSRC;
     $EXTRACT_FILE = get_ready_file('EXTRACT_FILE');
     $RT_SRCTRG    = get_ready_file('RT_SRCTRG');
     $RT_TRGSRC    = get_ready_file('RT_TRGSRC');
-    $TM_FILE      = get_ready_file('TM_FILE');
+    $TM_FILE      = get_ready_file('TM_FILE') if not $TM_FILE;
 }
 
-- 
2.43.0


From 78660eb724659970b10b561338dc42838aa96351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 118/118] fix: do not use half-written lexical tables when
 resuming training

---
 script/train/train-travatar.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index df23769..b4f8b44 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -447,7 +447,8 @@ sub set_default_files {
         'SRC_WORDS' => $DEFAULT_FILE{'ALIGN_FILE'},
         'TRG_WORDS' => $DEFAULT_FILE{'ALIGN_FILE'},
         'ALIGN_FILE' => $DEFAULT_FILE{'LEX_SRCTRG'},
-        'LEX_SRCTRG' => $DEFAULT_FILE{'LEX_TRGSRC'},
+        # Both lexical tables are written at the same time
+        'LEX_SRCTRG' => $DEFAULT_FILE{'EXTRACT_FILE'},
         'LEX_TRGSRC' => $DEFAULT_FILE{'EXTRACT_FILE'},
         'EXTRACT_FILE' => $DEFAULT_FILE{'RT_SRCTRG'},
         'RT_SRCTRG' => $DEFAULT_FILE{'TM_FILE'},
-- 
2.43.0

