From 8faf903a2624d38b77335005e879c83615474827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:08 +0000
Subject: [PATCH 001/105] fix: n-best search returned the same derivation twice
 when its score was reached with different rounding

---
 src/include/travatar/hyper-graph.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 600a7f4..cd1bef5 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -338,7 +338,13 @@ public:
 
     typedef std::set<boost::shared_ptr<NbestStackItem>, StackScoreMore> NbestStateStack;
 
-    void PushStack(const boost::shared_ptr<NbestStackItem> & item) { stack.insert(item); }
+    // The same item can be reached by incrementing different children, and its
+    // score may then differ by rounding error, so check for duplicates without
+    // relying on the score
+    void PushStack(const boost::shared_ptr<NbestStackItem> & item) {
+        if(pushed.insert(std::make_pair(item->edge_rank, item->child_ranks)).second)
+            stack.insert(item);
+    }
     boost::shared_ptr<NbestStackItem> PopStack() {
         NbestStateStack::iterator beg = stack.begin();
         boost::shared_ptr<NbestStackItem> ret = *beg;
@@ -348,6 +354,7 @@ public:
 
     std::vector<NbestEdge> edges;
     NbestStateStack stack;
+    std::set<std::pair<int, std::vector<int> > > pushed;
     std::vector<boost::shared_ptr<HyperPath> > paths;
     std::set<CfgDataVector> uniq_sents;
 
-- 
2.43.0


From d529fd910347e89d31325d1024c7fdfea2d14981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:08 +0000
Subject: [PATCH 002/105] fix: unique n-best lists contained the same
 translation once per number of child phrases

---
 src/lib/hyper-graph.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index ba937f5..bcc4dfb 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -342,7 +342,10 @@ boost::shared_ptr<HyperPath> HyperGraph::NbestGetNthPath(int node, int rank, boo
         boost::shared_ptr<HyperPath> act_path = NbestCreatePath(node, *item, uniq, states);
         // Check whether to add it or not
         if(uniq) {
+            // Translations are the same if their words are, no matter how
+            // many children the words came from
             CfgDataVector trg = act_path->CalcTranslations();
+            BOOST_FOREACH(CfgData & data, trg) data.syms.clear();
             if(state->uniq_sents.find(trg) == state->uniq_sents.end()) {
                 state->uniq_sents.insert(trg);
                 state->paths.push_back(act_path);
-- 
2.43.0


From 7a9cd664e396d009906cfad545ce601c92ac109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 003/105] fix: subtracting a sparse vector added the entries
 that were only on the right-hand side

---
 src/lib/sparse-map.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 8c97133..2d6f4bf 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -214,7 +214,10 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
     SparseVector::SparseVectorImpl & impl = lhs.GetImpl();
     while(itr != rhs.end()) {
         if(itl == lhs.end()) {
-            impl.insert(itl, itr, rhs.end());
+            while(itr != rhs.end()) {
+                impl.push_back(make_pair(itr->first, -itr->second));
+                itr++;
+            }
             break;
         } else if(itl->first == itr->first) {
             itl->second -= itr->second;
@@ -222,7 +225,7 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
         } else if(itl->first < itr->first) {
             itl++;
         } else {
-            itl = impl.insert(itl, *itr);
+            itl = impl.insert(itl, make_pair(itr->first, -itr->second));
             itr++;
         }
     }
-- 
2.43.0


From e9619b19ce4774b6ec0efedd629d4ac3e713abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 004/105] fix: building a sparse vector added the key instead
 of the value of repeated entries

---
 src/lib/sparse-map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 2d6f4bf..416d188 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -124,7 +124,7 @@ SparseVector::SparseVector(const std::vector<SparsePair> & vec) : impl_(vec) {
     SparseVectorImpl::iterator itl = impl_.begin(), itr = impl_.begin()+1;
     while(itr != impl_.end()) {
         if(itl->first == itr->first) {
-            itl->second += itr->first;
+            itl->second += itr->second;
         } else {
             itl++;
             *itl = *itr;
-- 
2.43.0


From 4955385486eee4751fd73e6f10e050add22ce8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 005/105] fix: adding log probabilities over- or underflowed
 when the largest was neither first nor last

---
 src/include/travatar/softmax.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/softmax.h b/src/include/travatar/softmax.h
index f9f15f0..f7d1b1c 100644
--- a/src/include/travatar/softmax.h
+++ b/src/include/travatar/softmax.h
@@ -9,8 +9,9 @@ namespace travatar {
 inline Real AddLogProbs(const std::vector<Real> & probs) {
     if(probs.size() == 0)
         return -REAL_MAX;
-    const unsigned size = probs.size();
-    Real myMax = std::max(probs[0],probs[size-1]), norm=0;
+    Real myMax = probs[0], norm = 0;
+    for(unsigned i = 1; i < probs.size(); i++)
+        myMax = std::max(myMax, probs[i]);
     for(unsigned i = 0; i < probs.size(); i++)
         norm += exp(probs[i]-myMax);
     return log(norm)+myMax;
-- 
2.43.0


From fe595113eb7eedee517618c6b3733784b264b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 006/105] fix: unary flattening dropped derivations, scores and
 children of nodes with several hyperedges and merged only pairs

---
 src/lib/unary-flattener.cc | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/lib/unary-flattener.cc b/src/lib/unary-flattener.cc
index 24b2940..a0bc41e 100644
--- a/src/lib/unary-flattener.cc
+++ b/src/lib/unary-flattener.cc
@@ -12,21 +12,19 @@ HyperGraph * UnaryFlattener::TransformGraph(const HyperGraph & hg) const {
     // First copy the graph
     HyperGraph * ret = new HyperGraph(hg);
     BOOST_FOREACH(HyperNode * node, ret->GetNodes()) {
-        if(node->NumEdges() > 1) {
-            // THROW_ERROR("Flatten does not currently work for hypergraphs of degree > 1");
-        } else if(node->NumEdges() == 0 ||
-                  node->GetEdge(0)->NumTails() != 1) {
-            continue;
-        }
-        HyperEdge * old_edge = node->GetEdge(0);
-        HyperNode * old_child = old_edge->GetTail(0);
-        if(old_child->NumEdges() > 0) {
-            node->GetEdges().clear();
-            node->GetEdges().push_back(old_child->GetEdge(0));
-            node->GetEdge(0)->SetHead(node);
+        // Merge unary chains. Nodes with several hyperedges are left as they
+        // are, as merging them would lose all but one of their derivations
+        while(node->NumEdges() == 1 && node->GetEdge(0)->NumTails() == 1) {
+            HyperEdge * edge = node->GetEdge(0);
+            const HyperNode * old_child = edge->GetTail(0);
+            if(old_child->NumEdges() != 1) break;
+            const HyperEdge * child_edge = old_child->GetEdge(0);
+            edge->SetScore(edge->GetScore() + child_edge->GetScore());
+            edge->SetFeatures(edge->GetFeatures() + child_edge->GetFeatures());
+            edge->SetTails(vector<HyperNode*>(child_edge->GetTails()));
             node->SetSym(Dict::WID(Dict::WSym(node->GetSym())+"_"+
                                    Dict::WSym(old_child->GetSym())));
-        } 
+        }
     }
     return ret;
 
-- 
2.43.0


From 074c8eff2dbe5e7d9863b6749b871d98a921c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 007/105] fix: BLEU with a precision weight was undefined for
 short references and refused identical texts because of rounding

---
 src/lib/eval-measure-bleu.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index c0716d9..ef238c7 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -113,7 +113,9 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
         Real sys = (vals_[3*i+1]+smooth);
         Real ref = (vals_[3*i+2]+smooth);
         
-        Real fmeas = (sys == 0 ? 0 : mat / (prec_weight_ * sys + (1-prec_weight_) * ref));
+        Real denom = prec_weight_ * sys + (1-prec_weight_) * ref;
+        // Matches exceed neither side, so anything over one is a rounding error
+        Real fmeas = (sys == 0 || denom == 0 ? 0 : min(mat / denom, (Real)1.0));
         // To support PINC
         if (inverse_)
             fmeas = 1.0 - fmeas;
-- 
2.43.0


From c6a17a83f3d0994d5459368040dbffdc93d1c51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 008/105] fix: NIST was not a number when the system output was
 shorter than the n-gram order

---
 src/lib/eval-measure-nist.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 5b56928..384a1cd 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -98,7 +98,7 @@ NistReport EvalStatsNist::CalcNistReport() const {
     // Calculate the precision for each order
     report.nist = 0.0;
     for (int i=0; i < ngram_order; i++) {
-        Real score = vals_[2*i]/vals_[2*i+1];
+        Real score = vals_[2*i+1] ? vals_[2*i]/vals_[2*i+1] : 0;
         report.scores.push_back(score);
         report.nist += score;
     }
-- 
2.43.0


From 42204ed821113df411670f34a3a43661b057d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 009/105] fix: RIBES ignored the longest left context, so
 identical sentences could score zero

---
 src/lib/eval-measure-ribes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-ribes.cc b/src/lib/eval-measure-ribes.cc
index ad8fd4e..c192f08 100644
--- a/src/lib/eval-measure-ribes.cc
+++ b/src/lib/eval-measure-ribes.cc
@@ -52,7 +52,7 @@ boost::shared_ptr<EvalStats> EvalMeasureRibes::CalculateStats(const Sentence & r
             // These vectors store all hypotheses that are still matching on the right or left
             vector<int> left_ref = ref_match, left_sys = sys_match,
                         right_ref = ref_match, right_sys = sys_match;
-            for(int window = 1; window < max(i, (int)sys.size()-i); window++) {
+            for(int window = 1; window < max(i+1, (int)sys.size()-i); window++) {
                 // Update the possible hypotheses on the left
                 if(window <= i) {
                     vector<int> new_left_ref, new_left_sys;
-- 
2.43.0


From a405b7058aa07523ddb012874a7247033a63882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 010/105] fix: adding scaled statistics to interpolated
 measures did nothing

---
 src/include/travatar/eval-measure-adv-interp.h | 1 +
 src/include/travatar/eval-measure-interp.h     | 1 +
 src/lib/eval-measure-adv-interp.cc             | 8 ++++++++
 src/lib/eval-measure-interp.cc                 | 8 ++++++++
 4 files changed, 18 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 6b764bd..f8b3ee0 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -28,6 +28,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 86139e2..8a7a462 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -29,6 +29,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 272bc0d..8259626 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsAdvInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsAdvInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 5087c82..24a2a60 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsInterp & rhsi = (const EvalStatsInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
-- 
2.43.0


From 403a45814584c6ee4df80b503a23a4383942dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 011/105] fix: comparing statistics of combined measures looked
 at only the first characters of the expression

---
 src/lib/eval-measure-adv-interp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 8259626..ef6593e 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -63,7 +63,7 @@ bool EvalStatsAdvInterp::Equals(const EvalStats & rhs) const {
     const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
     if(stats_.size() != rhsi.stats_.size()) return false;
     for(int i = 0; i < (int)stats_.size(); i++) {
-        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i] || query_[i] != rhsi.query_[i])
+        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i] || query_ != rhsi.query_)
             return false;
     }
     return true;
-- 
2.43.0


From d1fbc670f5eab844bf67128c5600c4c1eec4d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 012/105] fix: MT segmentation scored candidates with words
 missing after a segment that left too many words

---
 src/lib/mt-segmenter-runner.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 473b5c2..2afefb7 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -35,6 +35,8 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
         curr_sentence.push_back(sys_corpus[i]);
     Real best_score = -REAL_MAX;
     for(int i = first; i <= last; i++) {
+        // Add the word before the end of the candidate, also after skipped ones
+        if(i != first) curr_sentence.push_back(sys_corpus[i-1]);
         pair<int,int> next_refsys(curr_refsys.first+1, i);
         EvalStatsPtr eval, next_eval;
         if(!is_last) { 
@@ -55,7 +57,6 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
             memo[curr_refsys] = MTSegmenterMemo::mapped_type(next_refsys, eval);
             best_score = my_score;
         }
-        if(i != last) curr_sentence.push_back(sys_corpus[i]);
     }
     // If we have not found any answer, add a dummy answer
     if(best_score == -REAL_MAX)
-- 
2.43.0


From 59cdfbe03265df29d9ea973d593b37266709b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 013/105] fix: MT segmentation crashed when no segmentation
 fits the length limit

---
 src/lib/mt-segmenter-runner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 2afefb7..3a65b0b 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -81,6 +81,8 @@ void MTSegmenterRunner::SegmentMT(
         MTSegmenterMemo::mapped_type next_refsys = GetNextRefSys(
             ref_sents, sys_corpus, eval_measure,
             curr_refsys, memo);
+        if(next_refsys.second.get() == NULL)
+            THROW_ERROR("The system output is too long to be segmented, increase slack");
         sys_sents.push_back(Sentence());
         for(int i = curr_refsys.second; i < next_refsys.first.second; i++)
             sys_sents.rbegin()->push_back(sys_corpus[i]);
-- 
2.43.0


From 124bf8f0512ba25f1e07152bab43b1c7122adeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 014/105] fix: the worker loop read the stop flag without
 holding the lock

---
 src/lib/thread-pool.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index a5674a7..1c1e2d2 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -14,11 +14,12 @@ ThreadPool::ThreadPool(int num_threads, int queue_limit) :
 }
 
 void ThreadPool::Run() {
-    while(!stopped_) {
+    while(true) {
         Task* task = NULL;
         {
             boost::mutex::scoped_lock lock(mutex_);
-            if(tasks_.empty() && !stopped_)
+            if(stopped_) break;
+            if(tasks_.empty())
                 thread_needed_.wait(lock);
             if(!stopped_ && !tasks_.empty()) {
                 task = tasks_.front();
-- 
2.43.0


From ae0ae0c29b6a2352586437f0e3efc2c7614985e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 015/105] fix: a submitter waiting for queue space when the
 pool stops hung or lost its task

---
 src/lib/thread-pool.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index 1c1e2d2..6aff67b 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -37,10 +37,10 @@ void ThreadPool::Run() {
 
 void ThreadPool::Submit(Task* task) {
     boost::mutex::scoped_lock lock(mutex_);
+    while(!stopping_ && queue_limit_ && (int)tasks_.size() >= queue_limit_)
+        thread_available_.wait(lock);
     if(stopping_)
         THROW_ERROR("Cannot accept new jobs while ThreadPool is stopping");
-    while(queue_limit_ && (int)tasks_.size() >= queue_limit_)
-        thread_available_.wait(lock);
     tasks_.push(task);
     thread_needed_.notify_all();
 }
@@ -59,6 +59,7 @@ void ThreadPool::Stop(bool process_remaining) {
         if(stopped_) return;
         stopping_ = true;
     }
+    thread_available_.notify_all();
     if(process_remaining) {
         boost::mutex::scoped_lock lock(mutex_);
         while(!tasks_.empty() && !stopped_)
-- 
2.43.0


From f9fa6809c16328f8307a605b0df16cefda5a5b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 016/105] fix: waiting for the worker pool could hang or return
 while tasks were running

---
 src/include/travatar/thread-pool.h |  1 +
 src/lib/thread-pool.cc             | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/thread-pool.h b/src/include/travatar/thread-pool.h
index a2ecc5c..5e5a100 100644
--- a/src/include/travatar/thread-pool.h
+++ b/src/include/travatar/thread-pool.h
@@ -46,6 +46,7 @@ protected:
     bool stopping_;
     bool delete_tasks_;
     int queue_limit_;
+    int running_;
 
 };
 
diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index 6aff67b..c433c79 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -8,7 +8,7 @@ using namespace boost;
 
 ThreadPool::ThreadPool(int num_threads, int queue_limit) :
         stopped_(false), stopping_(false), delete_tasks_(true),
-        queue_limit_(queue_limit) {
+        queue_limit_(queue_limit), running_(0) {
     for(int i = 0; i < num_threads; i++)
         threads_.create_thread(bind(&ThreadPool::Run, this));
 }
@@ -24,12 +24,15 @@ void ThreadPool::Run() {
             if(!stopped_ && !tasks_.empty()) {
                 task = tasks_.front();
                 tasks_.pop();
+                running_++;
             }
         }
         if(task) {
             task->Run();
             if(delete_tasks_)
                 delete task;
+            boost::mutex::scoped_lock lock(mutex_);
+            running_--;
         }
         thread_available_.notify_all();
     }
@@ -46,11 +49,9 @@ void ThreadPool::Submit(Task* task) {
 }
 
 void ThreadPool::Wait() {
-    while(!tasks_.empty()) {
-        boost::mutex::scoped_lock lock(mutex_);
+    boost::mutex::scoped_lock lock(mutex_);
+    while(!tasks_.empty() || running_ > 0)
         thread_available_.wait(lock);
-    }
-    sleep(1);
 }
 
 void ThreadPool::Stop(bool process_remaining) {
-- 
2.43.0


From 8eb1a3be682a5862801661f2eb80bdb1bfefa3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:05 +0000
Subject: [PATCH 017/105] fix: target-side lookup crashed on or dropped
 unmatched alternatives of nodes that also cover a word

---
 src/lib/lookup-table.cc | 49 +++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 4342e38..d5aface 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -251,42 +251,33 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
         // it we match all unk, connect the parse state regardlessly
         if (indexed_head.size() == (size_t) 0 || match_all_unk_) {
             // Adding the tail to other parse state
-            if (input_node->IsPreTerminal()) {
-                // Translating the node to itself
-                HyperEdge* idem = new HyperEdge(parse_node);
-                WordId word = parse.GetWord(input_node->GetSpan().first);
+            BOOST_FOREACH(HyperEdge* edge, input_node->GetEdges()) {
+                HyperEdge * parse_edge = new HyperEdge(parse_node);
                 ostringstream oss;
-                if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ( \"" << Dict::WSym(word) << "\" )";
-                vector<WordId> trg_words(1, word);
-                CfgDataVector trg_data(GlobalVars::trg_factors, trg_words);
-                idem->SetRule(GetUnknownRule(), input_node->GetEdge(0)->GetFeatures());
-                idem->SetTrgData(trg_data);
-                if (save_src_str_) idem->SetSrcStr(oss.str());
-                parse_node->AddEdge(idem);
-                ret->AddEdge(idem);
-            } else {
-                BOOST_FOREACH(HyperEdge* edge, input_node->GetEdges()) {
-                    HyperEdge * parse_edge = new HyperEdge(parse_node);
-                    ostringstream oss;
-                    if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ("; 
-                    vector<WordId> trg(edge->GetTails().size());
+                if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ("; 
+                BOOST_FOREACH(HyperNode* tail, edge->GetTails())
+                    if(!tail->IsTerminal())
+                        parse_edge->AddTail(general_map.find(tail->GetId())->second);
+                parse_edge->SetRule(GetUnknownRule(), edge->GetFeatures());
+                if(parse_edge->GetTails().size() > 0) {
+                    vector<int> trg(parse_edge->GetTails().size());
                     for (size_t i=0; i < trg.size(); ++i) {
                         if(save_src_str_) oss << " x" << i << ':' << Dict::WSym(edge->GetTail(i)->GetSym()); 
                         trg[i] = -1 - i;
                     }
-                    parse_edge->SetRule(GetUnknownRule(), edge->GetFeatures());
                     parse_edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors,trg));
-                    BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
-                        HyperNode* child = general_map.find(tail->GetId())->second;
-                        parse_edge->AddTail(child);
-                    }
-                    if (save_src_str_) {
-                        oss << " )";
-                        parse_edge->SetSrcStr(oss.str());
-                    }
-                    parse_node->AddEdge(parse_edge);
-                    ret->AddEdge(parse_edge);
+                } else {
+                    // Translating the node to itself
+                    WordId word = parse.GetWord(input_node->GetSpan().first);
+                    if (save_src_str_) oss << " \"" << Dict::WSym(word) << "\"";
+                    parse_edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors, vector<WordId>(1, word)));
+                }
+                if (save_src_str_) {
+                    oss << " )";
+                    parse_edge->SetSrcStr(oss.str());
                 }
+                parse_node->AddEdge(parse_edge);
+                ret->AddEdge(parse_edge);
             }
         }
         general_map.insert(make_pair(input_node->GetId(), parse_node));
-- 
2.43.0


From 5e3ead201e4df32615556d459319c6051b262cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:05 +0000
Subject: [PATCH 018/105] fix: the compact rule table lost rules whose source
 appeared in several places

---
 src/lib/lookup-table-marisa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/lookup-table-marisa.cc b/src/lib/lookup-table-marisa.cc
index 248406a..74c481d 100644
--- a/src/lib/lookup-table-marisa.cc
+++ b/src/lib/lookup-table-marisa.cc
@@ -68,7 +68,9 @@ LookupTableMarisa * LookupTableMarisa::ReadFromRuleTable(std::istream & in) {
         agent.set_query(str.c_str());
         if(!ret->GetTrie().lookup(agent))
             THROW_ERROR("Internal error when building rule table @ " << str);
-        main_rules[agent.key().id()] = my_rules;
+        // A source may appear in several places in the table
+        RuleVec & trg_rules = main_rules[agent.key().id()];
+        trg_rules.insert(trg_rules.end(), my_rules.begin(), my_rules.end());
     }
     return ret;
 }
-- 
2.43.0


From 6e6ef22782508f4a09488e44f3a8b74292ce2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 019/105] fix: target-side lookup left out children whose
 variable carries no target label

---
 src/lib/lookup-table.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index d5aface..18f0320 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -188,7 +188,7 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                 HyperEdge * next_edge = new HyperEdge(head_node);
                 unsigned int penalty = 0;
                 bool child_ok = true;
-                for (size_t i=0; child_ok && i < trg_data[0].GetSymSize(); ++i) {
+                for (size_t i=0; child_ok && i < non_terms.size(); ++i) {
                     // the head of the child's nt
                     vector<WordId> child_head(trg_data.size(),0);
                     for (size_t j=0; j < trg_data.size(); ++j) {
-- 
2.43.0


From 7b621321adff17991211eb5fe2de38333a1d8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 020/105] fix: grammar reading missed longer unary cycles and
 variables without a label on either side

---
 src/lib/rule-fsm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 69afd1a..fdd23c3 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -32,8 +32,6 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
             Dict::ParseSparseVector(columns[2]),
             src_data
         );
-        if(src_data.syms.size() == 1 && src_data.words.size() == 1)
-            unaries[rule->GetChildHeadLabels(0)].insert(rule->GetHeadLabels());
         // Sanity check
         BOOST_FOREACH(const CfgData & trg_data, rule->GetTrgData())
             if(trg_data.syms.size() != src_data.syms.size())
@@ -41,8 +39,10 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
         if(src_data.words.size() == 0)
             THROW_ERROR("Empty sources in a rule are not allowed: " << endl << line);
         BOOST_FOREACH(WordId srcid, src_data.words)
-            if(-1 - srcid > (int)src_data.syms.size())
+            if(-1 - srcid >= (int)src_data.syms.size())
                 THROW_ERROR("Non-terminal ID is larger than number of symbols: " << endl << line);
+        if(src_data.syms.size() == 1 && src_data.words.size() == 1)
+            unaries[rule->GetChildHeadLabels(0)].insert(rule->GetHeadLabels());
 
         string key_str = CreateKey(src_data, trg_data);
         rules[key_str].push_back(rule);
@@ -64,7 +64,7 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
                 UnaryMap::iterator it = unaries.find(target);
                 if(it != unaries.end()) {
                     BOOST_FOREACH(const HieroHeadLabels & second_trg, it->second) {
-                        set<HieroHeadLabels>::iterator it2 = val.second.find(target);
+                        set<HieroHeadLabels>::iterator it2 = val.second.find(second_trg);
                         if(it2 == val.second.end()) {
                             added = true;
                             val.second.insert(second_trg);
-- 
2.43.0


From b4bb926e9d26d70ffe9191dbb9916525d6244dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 021/105] fix: grammar-based parsing lost derivations when one
 table's rules build on nodes of a later table

---
 src/include/travatar/rule-fsm.h |  11 +++
 src/lib/lookup-table-fsm.cc     |  16 +++-
 src/lib/rule-fsm.cc             | 127 ++++++++++++++++++--------------
 3 files changed, 96 insertions(+), 58 deletions(-)

diff --git a/src/include/travatar/rule-fsm.h b/src/include/travatar/rule-fsm.h
index c08a588..9884888 100644
--- a/src/include/travatar/rule-fsm.h
+++ b/src/include/travatar/rule-fsm.h
@@ -72,6 +72,17 @@ protected:
     void BuildHyperGraphComponent(HieroNodeMap & node_map, EdgeList & edge_set,
         const Sentence & input, const std::string & state, int position, HieroRuleSpans & spans) const;
 
+    // Continue the rule prefix "state" with the word at "position"
+    void MatchWord(HieroNodeMap & node_map, EdgeList & edge_set,
+        const Sentence & input, const std::string & state, int position, HieroRuleSpans & spans) const;
+
+    // Continue the rule prefix "state" with the nodes over [position, next_pos)
+    void MatchSpan(HieroNodeMap & node_map, EdgeList & edge_set,
+        const Sentence & input, const std::string & state, int position, int next_pos, HieroRuleSpans & spans) const;
+
+    // Add the nodes over a span that unary rules lead to, and return whether there were any
+    bool ExpandUnaries(HieroNodeMap & node_map, int position, int next_pos) const;
+
     static std::string CreateKey(const CfgData & src_data,
                                  const std::vector<CfgData> & trg_data);
 private:
diff --git a/src/lib/lookup-table-fsm.cc b/src/lib/lookup-table-fsm.cc
index 2af3aba..fbf5577 100644
--- a/src/lib/lookup-table-fsm.cc
+++ b/src/lib/lookup-table-fsm.cc
@@ -186,9 +186,21 @@ HyperGraph * LookupTableFSM::TransformGraph(const HyperGraph & graph) const {
             // Add a size 0 node for unknown words
             RuleFSM::FindNode(node_map, i, i+1, unk_symbol_);
         }
-        // For each grammar, add rules
+        // For each grammar, add rules that start with a word
         BOOST_FOREACH(RuleFSM* rule_fsm, rule_fsms_)
-            rule_fsm->BuildHyperGraphComponent(node_map, edge_list, sent, "", i, span);
+            rule_fsm->MatchWord(node_map, edge_list, sent, "", i, span);
+        // Then rules that start with a node. The grammars advance together, as
+        // they may use the nodes of each other
+        for(int j = i+1; j <= (int)sent.size(); j++) {
+            bool expanded;
+            do {
+                expanded = false;
+                BOOST_FOREACH(RuleFSM* rule_fsm, rule_fsms_)
+                    if(rule_fsm->ExpandUnaries(node_map, i, j)) expanded = true;
+            } while(expanded);
+            BOOST_FOREACH(RuleFSM* rule_fsm, rule_fsms_)
+                rule_fsm->MatchSpan(node_map, edge_list, sent, "", i, j, span);
+        }
     }
 
     // Add rules for unknown words
diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index fdd23c3..f0f9cc8 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -99,6 +99,20 @@ void RuleFSM::BuildHyperGraphComponent(
         const string & state,
         int position, 
         HieroRuleSpans & spans) const {
+    MatchWord(node_map, edge_list, input, state, position, spans);
+    // Continue until the end of the sentence or the max span length
+    int until = min((int)input.size(), position+span_length_);
+    for(int next_pos = position+1; next_pos <= until; next_pos++)
+        MatchSpan(node_map, edge_list, input, state, position, next_pos, spans);
+}
+
+void RuleFSM::MatchWord(
+        HieroNodeMap & node_map, 
+        EdgeList & edge_list, 
+        const Sentence & input,
+        const string & state,
+        int position, 
+        HieroRuleSpans & spans) const {
     if (position >= (int)input.size())
         return;
 
@@ -126,67 +140,68 @@ void RuleFSM::BuildHyperGraphComponent(
         // Recurse to match the following rules
         BuildHyperGraphComponent(node_map, edge_list, input, next_state, position+1, rule_span_next);
     }
+}
 
-    // Continue until the end of the sentence or the max span length
-    int until = min((int)input.size(), position+span_length_);
-    for(int next_pos = position+1; next_pos <= until; next_pos++) {
-        pair<int,int> span(position,next_pos);
-        // If this is the root, ensure unary nodes are expanded
-        if(state.length() == 0) {
-            set<HieroHeadLabels> next_set;
-            int last_size;
-            do {
-                last_size = next_set.size();
-                BOOST_FOREACH(const UnaryMap::value_type & val, unaries_) {
-                    HieroNodeMap::iterator it = node_map.find(span);
-                    if(it != node_map.end()) {
-                        if(it->second.find(val.first) != it->second.end()) {
-                            BOOST_FOREACH(HieroHeadLabels child_lab, val.second) {
-                                next_set.insert(child_lab);
-                                RuleFSM::FindNode(node_map, position, next_pos, child_lab);
-                            }
-                        }
-                    }
-                }
-            } while(last_size != (int)next_set.size());
-        }
-        // Find nodes that match the current span
-        HieroNodeMap::iterator node_it = node_map.find(span);
-        if(node_it == node_map.end()) continue;
-        // Build every node
-        HieroRuleSpans rule_span_next = HieroRuleSpans(spans);
-        rule_span_next.push_back(span);
-        BOOST_FOREACH(const HeadNodePairs::value_type & heads_node, node_it->second) {
-            vector<WordId> sym(heads_node.first);
-            BOOST_FOREACH(WordId & wid, sym)
-                wid = -1-wid;
-            string next_state = state;
-            next_state.append((char*)&sym[0], sizeof(WordId)*sym.size());
-            marisa::Agent agent;
-            agent.set_query(next_state.c_str(), next_state.length());
-            // cerr << " Searching nonterm " <<  PrintState(state) << "->" << PrintState(next_state) << endl;
-            if(trie_.predictive_search(agent)) {
-                // cerr << " FOUND NONTERM " <<  PrintState(state) << "->" << PrintState(next_state) << endl;
-                // // TODO: Maybe we need to do something with unks?
-                // if(span.second - span.first == 1 && node_it->second.find(sym) == node_it->second.end()) {
-                //     cerr << "Adding unknown node @ " << span.first << ":" << span.second << ", " << sym << endl;
-                //     RuleFSM::FindNode(node_map, span.first, span.second, sym);
-                // }
-                // If this exactly matched a rule add the rules
-                marisa::Agent agent_exact;
-                agent_exact.set_query(next_state.c_str(), next_state.length());
-                if(trie_.lookup(agent_exact)) {
-                    BOOST_FOREACH(TranslationRuleHiero* rule, rules_[agent_exact.key().id()]) {
-                        // cerr << "Matched nonterm: " << *rule << endl;
-                        edge_list.push_back(RuleFSM::TransformRuleIntoEdge(rule, rule_span_next, node_map, save_src_str_));
-                    }
+bool RuleFSM::ExpandUnaries(HieroNodeMap & node_map, int position, int next_pos) const {
+    if(next_pos - position > span_length_) return false;
+    HieroNodeMap::iterator it = node_map.find(make_pair(position,next_pos));
+    if(it == node_map.end()) return false;
+    size_t orig_size = it->second.size(), last_size;
+    do {
+        last_size = it->second.size();
+        BOOST_FOREACH(const UnaryMap::value_type & val, unaries_)
+            if(it->second.find(val.first) != it->second.end())
+                BOOST_FOREACH(const HieroHeadLabels & child_lab, val.second)
+                    RuleFSM::FindNode(node_map, position, next_pos, child_lab);
+    } while(last_size != it->second.size());
+    return orig_size != it->second.size();
+}
+
+void RuleFSM::MatchSpan(
+        HieroNodeMap & node_map, 
+        EdgeList & edge_list, 
+        const Sentence & input,
+        const string & state,
+        int position, 
+        int next_pos, 
+        HieroRuleSpans & spans) const {
+    if(next_pos - position > span_length_) return;
+    pair<int,int> span(position,next_pos);
+    // Find nodes that match the current span
+    HieroNodeMap::iterator node_it = node_map.find(span);
+    if(node_it == node_map.end()) return;
+    // Build every node
+    HieroRuleSpans rule_span_next = HieroRuleSpans(spans);
+    rule_span_next.push_back(span);
+    BOOST_FOREACH(const HeadNodePairs::value_type & heads_node, node_it->second) {
+        vector<WordId> sym(heads_node.first);
+        BOOST_FOREACH(WordId & wid, sym)
+            wid = -1-wid;
+        string next_state = state;
+        next_state.append((char*)&sym[0], sizeof(WordId)*sym.size());
+        marisa::Agent agent;
+        agent.set_query(next_state.c_str(), next_state.length());
+        // cerr << " Searching nonterm " <<  PrintState(state) << "->" << PrintState(next_state) << endl;
+        if(trie_.predictive_search(agent)) {
+            // cerr << " FOUND NONTERM " <<  PrintState(state) << "->" << PrintState(next_state) << endl;
+            // // TODO: Maybe we need to do something with unks?
+            // if(span.second - span.first == 1 && node_it->second.find(sym) == node_it->second.end()) {
+            //     cerr << "Adding unknown node @ " << span.first << ":" << span.second << ", " << sym << endl;
+            //     RuleFSM::FindNode(node_map, span.first, span.second, sym);
+            // }
+            // If this exactly matched a rule add the rules
+            marisa::Agent agent_exact;
+            agent_exact.set_query(next_state.c_str(), next_state.length());
+            if(trie_.lookup(agent_exact)) {
+                BOOST_FOREACH(TranslationRuleHiero* rule, rules_[agent_exact.key().id()]) {
+                    // cerr << "Matched nonterm: " << *rule << endl;
+                    edge_list.push_back(RuleFSM::TransformRuleIntoEdge(rule, rule_span_next, node_map, save_src_str_));
                 }
-                // Recurse to match the next node
-                BuildHyperGraphComponent(node_map, edge_list, input, next_state, next_pos, rule_span_next);
             }
+            // Recurse to match the next node
+            BuildHyperGraphComponent(node_map, edge_list, input, next_state, next_pos, rule_span_next);
         }
     }
-
 }
 
 HyperEdge* RuleFSM::TransformRuleIntoEdge(TranslationRuleHiero* rule, const HieroRuleSpans & rule_span,
-- 
2.43.0


From 35870f3beed0f44f601cd3c5a7784621eddd912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:44 +0000
Subject: [PATCH 022/105] fix: language model states of empty fragments
 equalled those of fragments with a complete empty left state

---
 src/kenlm/lm/state.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kenlm/lm/state.hh b/src/kenlm/lm/state.hh
index f6c51d6..dfe3865 100644
--- a/src/kenlm/lm/state.hh
+++ b/src/kenlm/lm/state.hh
@@ -56,14 +56,15 @@ inline uint64_t hash_value(const State &state, uint64_t seed = 0) {
 struct Left {
   bool operator==(const Left &other) const {
     return 
-      length == other.length &&
-      (!length || (pointers[length - 1] == other.pointers[length - 1] && full == other.full));
+      length == other.length && full == other.full &&
+      (!length || pointers[length - 1] == other.pointers[length - 1]);
   }
 
   int Compare(const Left &other) const {
     if (length < other.length) return -1;
     if (length > other.length) return 1;
-    if (length == 0) return 0; // Must be full.
+    // An empty fragment has length zero without being full.
+    if (length == 0) return (int)full - (int)other.full;
     if (pointers[length - 1] > other.pointers[length - 1]) return 1;
     if (pointers[length - 1] < other.pointers[length - 1]) return -1;
     return (int)full - (int)other.full;
-- 
2.43.0


From f8ccf47670de6cb6cc3752d19fff48330944d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:01 +0000
Subject: [PATCH 023/105] fix: incremental search mixed up the children of
 rules that rotate three or more variables

---
 src/lib/lm-composer-incremental.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 1082c19..4ea2533 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -47,7 +47,7 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
         old_edge = (HyperEdge*)add.GetNote().vp;
         Real edge_score = add.GetScore();
         // Add the new tails in *source* order 
-        vector<HyperNode*> tails;
+        vector<HyperNode*> tails(old_edge ? old_edge->GetTails().size() : 1);
         Sentence wids;
         vector<WordId> node_id;
         if(old_edge) {
@@ -58,12 +58,14 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
             wids = Sentence(1,-1);
             node_id = vector<WordId>(1);
         }
+        // The vertices of the partial edge are in target order
+        int nt = 0;
         BOOST_FOREACH(WordId wid, wids) {
             if(wid < 0) {
                 int tid = -1-wid;
-                const PartialVertex & part = add.NT()[tid];
+                const PartialVertex & part = add.NT()[nt++];
                 HyperNode* child = (HyperNode*)part.End();
-                tails.push_back(child);
+                tails[tid] = child;
                 edge_score -= child->GetViterbiScore();
                 // Keep track of the node ID
                 node_id[tid] = child->GetId();
-- 
2.43.0


From 52e2b4f0521ca1664b21f791223041f4d145ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 024/105] fix: incremental search crashed on forests without a
 derivation and queued the final edge twice

---
 src/lib/lm-composer-incremental.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 4ea2533..61ba881 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -71,6 +71,8 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
                 node_id[tid] = child->GetId();
             }
         }
+        // Children that the target side does not use are dropped
+        tails.erase(std::remove(tails.begin(), tails.end(), (HyperNode*)NULL), tails.end());
         // Skip duplicate edges
         if(node_memo.find(node_id) != node_memo.end())
             continue;
@@ -197,7 +199,7 @@ search::Vertex* LMComposerIncremental::CalculateRootVertex(
     // Don't redo ones we've already finished
     int id = vertices.size()-1;
     if(vertices[id]) return vertices[id];
-    if(vertices[0]->Empty()) return (vertices[0] = new search::Vertex);
+    if(vertices[0]->Empty()) return (vertices[id] = new search::Vertex);
     // For the edges coming from this node, add them to the EdgeGenerator
     search::EdgeGenerator edges;
     std::vector<lm::WordIndex> words(3,0);
@@ -214,7 +216,6 @@ search::Vertex* LMComposerIncremental::CalculateRootVertex(
     search::Note note;
     note.vp = NULL;
     pedge.SetNote(note);
-    edges.AddEdge(pedge);
     // Perform scoring and add the edge
     search::ScoreRuleRet score = search::ScoreRule(*static_cast<LMType*>(data->GetLM()), words, pedge.Between());
     pedge.SetScore(below_score + data->GetWeight() * score.prob + data->GetUnkWeight() * score.oov);
@@ -267,6 +268,7 @@ HyperGraph * LMComposerIncremental::TransformGraphTemplate(const HyperGraph & pa
     vertices[0] = CalculateVertex(parse, vertices, context, best, 0);
 
     // Create the final vertex
+    bool has_root = !vertices[0]->Empty();
     CalculateRootVertex(vertices, context, best);
 
     // Clear the memory
@@ -278,9 +280,9 @@ HyperGraph * LMComposerIncremental::TransformGraphTemplate(const HyperGraph & pa
     HyperGraph* ret = best.StealPointer();
     vector<HyperNode*> & nodes = ret->GetNodes();
     // Swap the root into the first position
-    nodes[0] = nodes[nodes.size()-1];
-    nodes.resize(nodes.size()-1);
-    if(nodes[0] != NULL) {
+    if(has_root) {
+        nodes[0] = nodes[nodes.size()-1];
+        nodes.resize(nodes.size()-1);
         nodes[0]->SetId(0);
     } else {
         delete ret;
-- 
2.43.0


From 4615c20a2bcf025c3e7558ab89cb62b831bfbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 025/105] fix: incremental search gave a zero-weight language
 model the feature value NaN

---
 .../travatar/lm-composer-incremental.h        | 16 ++++++++++-----
 src/lib/lm-composer-incremental.cc            | 20 +++++++++++++++++--
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/include/travatar/lm-composer-incremental.h b/src/include/travatar/lm-composer-incremental.h
index 1f3b872..1fcef6e 100644
--- a/src/include/travatar/lm-composer-incremental.h
+++ b/src/include/travatar/lm-composer-incremental.h
@@ -6,6 +6,7 @@
 #include <travatar/sentence.h>
 #include <travatar/real.h>
 #include <boost/shared_ptr.hpp>
+#include <map>
 #include <string>
 
 namespace search {
@@ -24,11 +25,12 @@ class Forest {
 public:
 
     // Constructor
-    Forest(travatar::WordId lm_id, Real lm_weight,
-           travatar::WordId lm_unk_id, Real lm_unk_weight,
-           travatar::WordId root_sym, int factor) : hg(new travatar::HyperGraph),
-                lm_id_(lm_id), lm_weight_(lm_weight), lm_unk_id_(lm_unk_id),
-                lm_unk_weight_(lm_unk_weight), root_sym_(root_sym), factor_(factor) {
+    Forest(const travatar::LMData * lm_data, travatar::LMFunc * lm_func,
+           travatar::WordId root_sym) : hg(new travatar::HyperGraph),
+                lm_data_(lm_data), lm_func_(lm_func),
+                lm_id_(lm_data->GetFeatureName()), lm_weight_(lm_data->GetWeight()),
+                lm_unk_id_(lm_data->GetUnkFeatureName()), lm_unk_weight_(lm_data->GetUnkWeight()),
+                root_sym_(root_sym), factor_(lm_data->GetFactor()) {
         hg->GetNodes().resize(1, NULL); // Reserve a spot for the root
     }
     // // Constructor
@@ -67,6 +69,10 @@ public:
 
   private:
     travatar::HyperGraph* hg;
+    const travatar::LMData * lm_data_;
+    travatar::LMFunc * lm_func_;
+    // The LM states of finished nodes, kept only if the LM weight is zero
+    std::map<travatar::HyperNode*, lm::ngram::ChartState> states_;
     travatar::WordId lm_id_;
     Real lm_weight_;
     travatar::WordId lm_unk_id_;
diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 61ba881..c43dff7 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -4,6 +4,8 @@
 #include <travatar/global-debug.h>
 #include <boost/unordered_set.hpp>
 #include <boost/foreach.hpp>
+#include <boost/scoped_ptr.hpp>
+#include <algorithm>
 #include <lm/left.hh>
 #include <search/context.hh>
 #include <search/edge.hh>
@@ -92,7 +94,18 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
         edge->SetHead(node);
         edge->SetTails(tails);
         hg->AddEdge(edge); node->AddEdge(edge);
-        Real lm_score = (edge_score - lm_unk * lm_unk_weight_ - edge->GetScore())/lm_weight_;
+        Real lm_score;
+        if(lm_weight_ != 0) {
+            lm_score = (edge_score - lm_unk * lm_unk_weight_ - edge->GetScore())/lm_weight_;
+        } else {
+            // The edge score says nothing about the LM score, so calculate it anew
+            vector<lm::ngram::ChartState> tail_states;
+            BOOST_FOREACH(HyperNode* tail, tails)
+                tail_states.push_back(states_[tail]);
+            lm::ngram::ChartState my_state;
+            lm_score = old_edge ? lm_func_->CalcNontermScore(lm_data_, wids, tail_states, my_state).first
+                                : lm_func_->CalcFinalScore(lm_data_->GetLM(), tail_states[0]);
+        }
         edge->GetFeatures().Add(lm_id_, lm_score);
         if(lm_unk)
             edge->GetFeatures().Add(lm_unk_id_, lm_unk);
@@ -107,6 +120,8 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
         node->SetSym(root_sym_);
     }
     node->SetViterbiScore(best.GetScore());
+    if(lm_weight_ == 0)
+        states_[node] = best.CompletedState();
     // Return the n-best
     if (!best.Valid())
         return NBestComplete(NULL, lm::ngram::ChartState(), -INFINITY);
@@ -258,7 +273,8 @@ HyperGraph * LMComposerIncremental::TransformGraphTemplate(const HyperGraph & pa
     LMData* data = lm_data_[0];
     search::Config config(data->GetWeight(), stack_pop_limit_, nconfig);
     search::Context<LMType> context(config, *static_cast<LMType*>(data->GetLM()));
-    search::Forest best(data->GetFeatureName(), data->GetWeight(), data->GetUnkFeatureName(), data->GetUnkWeight(), root_sym_, data->GetFactor());
+    boost::scoped_ptr<LMFunc> func(LMFunc::CreateFromType(data->GetType()));
+    search::Forest best(data, func.get(), root_sym_);
     // search::Forest best(data->GetWeight(), data->GetUnkWeight(), data->GetFactor());
 
     // Create the search graph
-- 
2.43.0


From 49c027dc80fbe7bf2a62d9bcbda730b088a557f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:58 +0000
Subject: [PATCH 026/105] fix: number the variables of extracted rules from
 left to right

Variables directly below an expanded node were numbered before those below its
non-frontier siblings to the left, so that source and target variables of a
rule referred to different nodes.
---
 src/lib/forest-extractor.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index d06175b..e1322c9 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -61,6 +61,13 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
             else {
                 // Get the next node to process and remove it from the stack
                 HyperNode* u = frag_front.second.front(); frag_front.second.pop_front();
+                // Frontier nodes below the root of the rule become its variables.
+                // As nodes are processed from left to right, so are the variables
+                if(u != v && u->IsFrontier() == HyperNode::IS_FRONTIER) {
+                    frag_front.first->AddTail(ret->GetNode(old_new_ids[u->GetId()]));
+                    open.push(frag_front);
+                    continue;
+                }
                 // If it has no edges, push back onto the stack and continue
                 if(u->GetEdges().size() == 0) {
                     open.push(frag_front);
@@ -74,13 +81,8 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
                     // in ascending order
                     deque<HyperNode*> new_front;
                     RuleEdge * new_frag(new RuleEdge(*frag_front.first));
-                    BOOST_FOREACH(HyperNode* t, e->GetTails()) {
-                        // If this is not a frontier node, push it on the queue
-                        if(t->IsFrontier() != HyperNode::IS_FRONTIER)
-                            new_front.push_back(t);
-                        else
-                            new_frag->AddTail(ret->GetNode(old_new_ids[t->GetId()]));
-                    }
+                    BOOST_FOREACH(HyperNode* t, e->GetTails())
+                        new_front.push_back(t);
                     BOOST_FOREACH(HyperNode * stack_node, frag_front.second)
                         new_front.push_back(stack_node);
                     // Push this on to the queue
-- 
2.43.0


From b757e262ca26f7320df9f4e4ca4941452eeaac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 027/105] fix: keep alignments of words beside constituents and
 of multi-word phrases in rules

Only words below nodes with a single one-word hyperedge were numbered.
---
 src/lib/forest-extractor.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index e1322c9..79ddc53 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -5,6 +5,7 @@
 #include <travatar/alignment.h>
 #include <travatar/global-debug.h>
 #include <travatar/dict.h>
+#include <algorithm>
 #include <queue>
 #include <stack>
 #include <list>
@@ -365,12 +366,12 @@ string RuleExtractor::RuleToString(const RuleEdge & rule, const Sentence & src_s
     BOOST_FOREACH(HyperEdge *edge, rule.GetFragmentEdges()) {
         remaining_fragments.push_back(edge);
         // Add the terminal ids for the source
-        pair<int,int> src_span = edge->GetHead()->GetSpan();
-        if(edge->GetHead()->IsPreTerminal()) {
-            for(int i = src_span.first; i < src_span.second; i++)
-                src_ids.push_back(i);
-        }
+        BOOST_FOREACH(const HyperNode * tail, edge->GetTails())
+            if(tail->IsTerminal())
+                src_ids.push_back(tail->GetSpan().first);
     }
+    // Terminals are numbered in the order in which they are printed
+    sort(src_ids.begin(), src_ids.end());
     int tail_num = 0;
     PrintRuleSurface(*(*remaining_fragments.begin())->GetHead(), src_sent, remaining_fragments, tail_num, oss);
     if(remaining_fragments.size() > 0)
-- 
2.43.0


From b04215165358d1c964db16f35db4d97433d0f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:08 +0000
Subject: [PATCH 028/105] fix: accept exactly numbers as values of numeric
 options

Trailing garbage was ignored (12abc) and spellings of zero such as 0.00 or -0
were rejected.
---
 src/lib/config-base.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index 29e833f..b089d7f 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -3,6 +3,8 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <fstream>
+#include <cerrno>
+#include <cstdlib>
 
 using namespace std;
 using namespace travatar;
@@ -119,15 +121,18 @@ std::vector<int> ConfigBase::GetIntArray(const std::string & name) const {
 }
 int ConfigBase::GetInt(const std::string & name) const {
     std::string str = GetString(name);
-    int ret = atoi(str.c_str());
-    if(ret == 0 && str != "0" && str != "00" && str != "000" && str != "0000")
+    char * end;
+    errno = 0;
+    long ret = strtol(str.c_str(), &end, 10);
+    if(str.empty() || *end != 0 || errno != 0 || ret != (int)ret)
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not an integer");
     return ret;
 }
 Real ConfigBase::GetReal(const std::string & name) const {
     std::string str = GetString(name);
-    Real ret = atof(str.c_str());
-    if(ret == 0 && str != "0" && str != "0.0")
+    char * end;
+    Real ret = strtod(str.c_str(), &end);
+    if(str.empty() || *end != 0)
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not float");
     return ret;
 }
-- 
2.43.0


From b9908c3b90898c1f6a2e21ab8aafd6bd13810141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:08 +0000
Subject: [PATCH 029/105] fix: allow negative numbers as option values on the
 command line

---
 src/lib/config-base.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index b089d7f..f01341b 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -3,6 +3,7 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <fstream>
+#include <cctype>
 #include <cerrno>
 #include <cstdlib>
 
@@ -71,7 +72,9 @@ std::vector<std::string> ConfigBase::LoadConfig(int argc, char** argv, bool prin
             ConfigMap::iterator cit = optArgs_.find(name);
             if(cit == optArgs_.end())
                 DIE_HELP("Illegal argument "<<name);
-            if(i == argc-1 || argv[i+1][0] == '-')
+            // The next argument is the value, unless it is another option
+            // (option names do not start with digits, negative numbers do)
+            if(i == argc-1 || (argv[i+1][0] == '-' && !isdigit(argv[i+1][1]) && argv[i+1][1] != '.'))
                 cit->second.first = "true";
             else
                 cit->second.first = argv[++i];
-- 
2.43.0


From 83bf36c073b20e17e0ad6bc08cebbce372bcfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:08 +0000
Subject: [PATCH 030/105] fix: options set as booleans or reals read back as
 the same value

---
 src/lib/config-base.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index f01341b..e1d79e3 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -165,8 +165,8 @@ void ConfigBase::SetInt(const std::string & name, int val) {
     std::ostringstream oss; oss << val; SetString(name,oss.str());
 }
 void ConfigBase::SetReal(const std::string & name, Real val) {
-    std::ostringstream oss; oss << val; SetString(name,oss.str());
+    std::ostringstream oss; oss.precision(17); oss << val; SetString(name,oss.str());
 }
 void ConfigBase::SetBool(const std::string & name, bool val) {
-    std::ostringstream oss; oss << val; SetString(name,oss.str());
+    SetString(name, val ? "true" : "false");
 }
-- 
2.43.0


From 44f9ca256bd9df24cda605dd2c8f3bf56a199b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 031/105] fix: count only the target words of a rule when
 limiting its length

Without attachment of unaligned words, rules for the root were measured by the
whole target sentence and dropped although they are short.
---
 src/lib/rule-filter.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lib/rule-filter.cc b/src/lib/rule-filter.cc
index a9e1afa..036ae79 100644
--- a/src/lib/rule-filter.cc
+++ b/src/lib/rule-filter.cc
@@ -6,6 +6,13 @@
 using namespace travatar;
 using namespace std;
 
+inline int SpanLength(const std::pair<int,int> & span) {
+    return span.second - span.first;
+}
+inline int RangeLength(const std::set<int> & positions) {
+    return positions.empty() ? 0 : *positions.rbegin() - *positions.begin() + 1;
+}
+
 bool RuleSizeFilter::PassesFilter(
             const HyperEdge & rule,
             const Sentence & src_sent,
@@ -14,14 +21,14 @@ bool RuleSizeFilter::PassesFilter(
         PRINT_DEBUG("RuleSizeFilter: " << rule << ": nonterm" << endl, 2);
         return false;
     }
-    std::pair<int,int> src_cov = rule.GetHead()->GetSpan(), 
-                       trg_cov = rule.GetHead()->GetTrgCovered();
-    int src_len = src_cov.second - src_cov.first,
-        trg_len = min(trg_cov.second,(int)trg_sent.size()) - trg_cov.first;
+    // The target words of a rule are those in the range of its head and outside
+    // the ranges of its tails (the root only covers the whole sentence if
+    // unaligned words have been attached to it)
+    int src_len = SpanLength(rule.GetHead()->GetSpan()),
+        trg_len = RangeLength(rule.GetHead()->GetTrgSpan());
     BOOST_FOREACH(const HyperNode * tail, rule.GetTails()) {
-        std::pair<int,int> tsrc_cov = tail->GetSpan(), ttrg_cov = tail->GetTrgCovered();
-        src_len -= tsrc_cov.second - tsrc_cov.first;
-        trg_len -= min(ttrg_cov.second,(int)trg_sent.size()) - ttrg_cov.first;            
+        src_len -= SpanLength(tail->GetSpan());
+        trg_len -= RangeLength(tail->GetTrgSpan());
     }
     bool passes = (src_len <= term_len_) && (trg_len <= term_len_);
     PRINT_DEBUG("RuleSizeFilter: " << rule << ": " << passes << " (("<<src_len<<" <= "<<term_len_<<") && ("<<trg_len<<" <= "<<term_len_<<") "<<endl, 2);
-- 
2.43.0


From b3a5781963ea99bb5e83ee83d893f63d3d3027ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 032/105] fix: do not read the root of an empty graph when
 normalizing probabilities

forest-extractor -normalize_probs crashed on sentences without alignments.
---
 src/lib/hyper-graph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index bcc4dfb..aa7583e 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -512,6 +512,7 @@ vector< vector<HyperEdge*> > HyperGraph::GetReversedEdges() {
 
 // Perform the inside-outside algorithm, where each edge score is a log probability
 void HyperGraph::InsideOutsideNormalize() {
+    if(nodes_.size() == 0) return;
     // Calculate the inside and outside probabilities
     vector<Real> inside(nodes_.size(), -REAL_MAX), outside(nodes_.size(), -REAL_MAX);
     vector<vector<HyperEdge*> > rev_edges = GetReversedEdges();
-- 
2.43.0


From 8a1662311c89e422a6cf8fbf69c6ffd53d771f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 033/105] fix: extract phrases ending in unaligned words at the
 end of the source sentence

They were missed because the table of links stopped at the last aligned word.
Links outside of the sentences are reported instead of read out of bounds.
---
 src/lib/hiero-extractor.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 506e4b4..7103d16 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -36,7 +36,9 @@ bool HieroExtractor::IsRuleValid(HieroRule* rule, int max_terminals) {
 vector< vector<HieroRule*> > HieroExtractor::ExtractHieroRule(const Alignment & align, const Sentence & source, 
         const Sentence & target) const
 {
-    const SourceAlignment & src_align = align.GetSrcAlignments();
+    SourceAlignment src_align = align.GetSrcAlignments();
+    // Include unaligned words at the end of the sentence
+    if(src_align.size() < source.size()) src_align.resize(source.size());
     vector< vector<HieroRule*> > ret;
     HieroExtractor::PhrasePairs filtered_pairs;
     HieroExtractor::PhrasePairs pairs;
@@ -115,9 +117,14 @@ vector< vector<HieroRule*> > HieroExtractor::ExtractHieroRule(const Alignment &
 
 // The implementation of phrase extraction algorithm.
 // The algorithm to extract all consistent phrase pairs from a word-aligned sentence pair
-HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment & s2t, const Sentence & source, 
+HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment & align, const Sentence & source, 
         const Sentence & target) const
 {
+    if(align.size() > source.size())
+        THROW_ERROR("Alignment outside of the source sentence");
+    // Include unaligned words at the end of the sentence
+    SourceAlignment s2t = align;
+    s2t.resize(source.size());
     vector<set<int> > t2s = vector<set<int> >();
     HieroExtractor::PhrasePairs ret = HieroExtractor::PhrasePairs();
 
@@ -128,7 +135,7 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
     for (unsigned s=0; s < s2t.size(); ++s) {
         set<int> ts = s2t[s];
         BOOST_FOREACH(int t, ts)
-            t2s[t].insert((int)s);
+            t2s.at(t).insert((int)s);
     }
 
     // Phrase Extraction Algorithm 
-- 
2.43.0


From 6d8f7cbc7936b630bff0ce1fd62ee08c11909f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 034/105] fix: do not extract phrase pairs without any
 alignment link

Unaligned words at the start of both sentences were taken for a phrase pair.
---
 src/lib/hiero-extractor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 7103d16..a51350e 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -147,6 +147,8 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
                 BOOST_FOREACH(int _t, s2t[s_end])
                     tp[_t]++;
             }
+            // A phrase pair must contain at least one link
+            if (tp.empty()) continue;
             int t_begin = MapMinKey(tp);
             int t_end = MapMaxKey(tp);
             if (QuasiConsecutive(t_begin,t_end,tp,t2s)) {
-- 
2.43.0


From 8279e0a90ee4e7427907006d7da9250fe9ef6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 035/105] fix: line search over a range that is a single
 boundary point uses the selection at that point

---
 src/lib/tune-mert.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index f8efe2d..c6e8909 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -65,7 +65,9 @@ LineSearchResult TuneMert::LineSearch(
             zero_stats = curr_stats->Clone();
         // Update the span if it exceeds the previous best and is in the acceptable gradient range
         Real curr_score = curr_stats->ConvertToScore();
-        if(curr_score > best_score && (last_bound < range.second && boundary.first > range.first)) {
+        // (if only a single point is acceptable, break ties at this point in the same way as at zero)
+        if((curr_score > best_score && (last_bound < range.second && boundary.first > range.first)) ||
+           (range.first == range.second && last_bound <= range.second && boundary.first >= range.first)) {
             best_span = ScoredSpan(Span(last_bound, boundary.first), curr_stats->Clone());
             best_score = curr_score;
         }
-- 
2.43.0


From 35188d13f7f7436eb6d9e10413df82f01fad1830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 036/105] fix: gradient of expected BLEU for smoothed,
 recall-weighted, arithmetic or brevity-free BLEU

---
 src/include/travatar/eval-measure-bleu.h | 11 ++++++---
 src/lib/gradient-xeval.cc                | 30 +++++++++++++++++-------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/include/travatar/eval-measure-bleu.h b/src/include/travatar/eval-measure-bleu.h
index dac2f4a..e617f14 100644
--- a/src/include/travatar/eval-measure-bleu.h
+++ b/src/include/travatar/eval-measure-bleu.h
@@ -49,9 +49,14 @@ public:
     Real GetAvgLogPrecision() const;
     Real GetLengthRatio() const;
     int GetNgramOrder() const { return vals_.size()/3; }
-    Real GetMatch(int n) const { return vals_[3*n]+smooth_; }
-    Real GetSysCount(int n) const { return vals_[3*n+1]+smooth_; }
-    Real GetRefCount(int n) const { return vals_[3*n+2]+smooth_; }
+    // Smoothed counts (smoothing is not applied to unigrams, same as in the score)
+    Real GetMatch(int n) const { return vals_[3*n]+(n == 0 ? 0 : smooth_); }
+    Real GetSysCount(int n) const { return vals_[3*n+1]+(n == 0 ? 0 : smooth_); }
+    Real GetRefCount(int n) const { return vals_[3*n+2]+(n == 0 ? 0 : smooth_); }
+    // The denominator of the precision/recall/f-measure
+    Real GetFDenom(int n) const { return prec_weight_*GetSysCount(n) + (1-prec_weight_)*GetRefCount(n); }
+    BleuMean GetMean() const { return mean_; }
+    bool GetCalcBrevity() const { return calc_brev_; }
 private:
     Real smooth_;
     Real prec_weight_;
diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index ff1a78b..6031cda 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -67,18 +67,30 @@ void GradientXeval::CalcBleuGradient(
     // Overall stats
     EvalStatsBleu * stats_bleu = (EvalStatsBleu*)stats.get();
     int N = p_i_k.size();
-    Real P = stats_bleu->GetAvgLogPrecision();
-    Real eP = exp(P);
+    int order = stats_bleu->GetNgramOrder();
+    bool geometric = (stats_bleu->GetMean() == GEOMETRIC);
+    // The mean of the n-gram scores, and the weight of the log n-gram score in its gradient
+    vector<Real> fmeas(stats_bleu->CalcBleuReport().scores), right(order);
+    Real eP = (geometric ? 1 : 0);
+    for(int n = 0; n < order; n++) {
+        if(geometric) eP *= fmeas[n];
+        else          eP += fmeas[n]/order;
+    }
+    if(geometric) eP = pow(eP, (Real)1.0/order);
     Real R = 1.0/stats_bleu->GetLengthRatio();
     Real mR = 1-R;
     Real emR = exp(mR), e10kmR = std::min(REAL_MAX,exp(10000*mR));
     Real B = (emR-1)/(e10kmR+1) + 1;
     Real Bprime = (emR-(emR-1)*10000*(e10kmR/(1+e10kmR)))/(1+e10kmR);
     // This is used in the calculation of dB/log(p_{i,k})
-    PRINT_DEBUG("P=" << P << ", eP=" << eP << ", B=" << B << ", Bprime=" << Bprime << ", R=" << R << ", e10kmR="<<e10kmR<<", emR=" << emR << endl, 3);
+    if(!stats_bleu->GetCalcBrevity()) {
+        B = 1; Bprime = 0;
+    }
+    PRINT_DEBUG("eP=" << eP << ", B=" << B << ", Bprime=" << Bprime << ", R=" << R << ", e10kmR="<<e10kmR<<", emR=" << emR << endl, 3);
     // The left and right constants
-    Real left = eP * Bprime * -R;
-    Real right = eP * B / stats_bleu->GetNgramOrder();
+    Real left = (Bprime == 0 ? 0 : eP * Bprime * -R);
+    for(int n = 0; n < order; n++)
+        right[n] = (geometric ? eP : fmeas[n]) * B / order;
     // The scaling constant and its
     Real gamma = (dense_scale_id_ == -1 ? 1.0 : x[dense_scale_id_]);
     if(gamma == 0.0) gamma = 1.0;
@@ -95,10 +107,10 @@ void GradientXeval::CalcBleuGradient(
             Real pik = p_i_k[i][k];
             // Calculate the derivative of exp(P) with respect to log(p_{i,k})
             Real my_right = 0;
-            for(int n = 0; n < stats_bleu->GetNgramOrder(); n++)
-                my_right += DivideZero(stats_i_k_bleu->GetMatch(n)*pik,stats_bleu->GetMatch(n)) -
-                            DivideZero(stats_i_k_bleu->GetSysCount(n)*pik,stats_bleu->GetSysCount(n));
-            my_right *= right;
+            for(int n = 0; n < order; n++)
+                my_right += right[n] * (
+                            DivideZero(stats_i_k_bleu->GetMatch(n)*pik,stats_bleu->GetMatch(n)) -
+                            DivideZero(stats_i_k_bleu->GetFDenom(n)*pik,stats_bleu->GetFDenom(n)));
             PRINT_DEBUG("my_right: " << my_right << endl, 3);
             // Calculate the derivative of B with respect to log(p_{i,k})
             Real my_left = left * (
-- 
2.43.0


From a5f96f8de9572bf4959413c099d358718ae4f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 037/105] fix: entropy regularizer has the same sign in the
 value and in the gradient

---
 src/lib/gradient-xeval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 6031cda..8ed5bd6 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -221,7 +221,7 @@ Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
             for(int k = 0; k < K; k++) {
                 Real my_log2 = max(LogZero(p_i_k[i][k])/log2,-REAL_MAX);
                 Real val = (my_log2 + 1) * p_i_k[i][k];
-                score += my_log2 * p_i_k[i][k] * ent_coeff_;
+                score -= my_log2 * p_i_k[i][k] * ent_coeff_;
                 for(int kprime = 0; kprime < K; kprime++)
                     ps[kprime] += val * ((kprime == k ? 1.0 : 0.0) - p_i_k[i][kprime]);
             }
-- 
2.43.0


From 3f90e5cb720325afc0abe00eaaaf44782e6fa4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 038/105] fix: start accumulating the gradient from zero

---
 src/lib/gradient-xeval.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 8ed5bd6..5a38885 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -144,6 +144,10 @@ void GradientXeval::CalcBleuGradient(
 
 Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
 
+    // The gradient is accumulated below
+    for(size_t i = 0; i < n; i++)
+        g[i] = 0.0;
+
     // Get the scaling factor
     Real gamma = (dense_scale_id_ == -1 ? 1.0 : x[dense_scale_id_]);
     if(gamma == 0.0) gamma = 1.0;
-- 
2.43.0


From b68aaef1733f7dfba1e0bc62b2489195cd94a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 039/105] fix: gradient of expected TER in its inverse form

---
 src/include/travatar/eval-measure-ter.h | 1 +
 src/include/travatar/eval-measure.h     | 4 +++-
 src/lib/gradient-xeval.cc               | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/eval-measure-ter.h b/src/include/travatar/eval-measure-ter.h
index 98f3744..8b2b309 100644
--- a/src/include/travatar/eval-measure-ter.h
+++ b/src/include/travatar/eval-measure-ter.h
@@ -19,6 +19,7 @@ public:
         Real score = vals_[1] ? vals_[0]/vals_[1] : 0;
         return inverse_ ? 1-score : score;
     }
+    virtual Real GetValSign() const { return inverse_ ? -1 : 1; }
     EvalStatsPtr Clone() const { return EvalStatsPtr(new EvalStatsTer(vals_[0], vals_[1], inverse_)); }
 protected:
     bool inverse_;
diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index 7734e68..e3f0dc6 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -72,7 +72,9 @@ public:
     virtual std::string GetIdString() const { return "AVG"; }
     // Getters
     Real GetVal() const { return vals_[0]; }
-    int GetDenom() const { return vals_[1]; }
+    Real GetDenom() const { return vals_[1]; }
+    // The sign of the change in score when the value increases
+    virtual Real GetValSign() const { return 1; }
 private:
 };
 
diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 5a38885..5f0fe27 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -38,7 +38,7 @@ void GradientXeval::CalcAvgGradient(
             EvalStatsAverage * stats_i_k_avg = (EvalStatsAverage*)all_stats_[i][k].get();
             PRINT_DEBUG("Stats i=" << i << ", k=" << k << ": " << stats_i_k_avg->ConvertToString() << endl, 4);
             // Calculate the derivative of xeval
-            Real d_xeval_logpik = p_i_k[i][k]*stats_i_k_avg->GetVal()/stats_avg->GetDenom();
+            Real d_xeval_logpik = stats_avg->GetValSign()*DivideZero(p_i_k[i][k]*stats_i_k_avg->GetVal(),stats_avg->GetDenom());
             // Now multiply this value for every k'
             for(int kprime = 0; kprime < K; kprime++)
                 d_xeval_dsikprime[kprime] += 
-- 
2.43.0


From e580105f85866e4963679ba909a5c9536c28945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 040/105] fix: MERT tunes and reports scores that are not
 positive

---
 src/lib/tune-mert.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index c6e8909..4a06e77 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -106,6 +106,7 @@ void TuneMert::Init(const SparseMap & init_weights) {
 Real TuneMert::RunTuning(SparseMap & weights) {
     // Continue
     Real best_score = 0;
+    bool first = true;
     PRINT_DEBUG("Starting MERT Run: " << Dict::PrintSparseMap(weights) << endl, 2);
     while(true) {
         // 1) Initialize the best result
@@ -152,14 +153,16 @@ Real TuneMert::RunTuning(SparseMap & weights) {
             // Redo the gain in comparison to the currently saved best score.
             // Given that ties might exist, it is safer to take the gain this way in case
             // a tie results in a change in the best hypothesis.
+            // There is no saved score at first, so take the best one no matter what it is.
             result.gain = result.after->ConvertToScore() - best_score;
-            if(result.gain > best_result.gain) {
+            if(result.gain > best_result.gain || (first && !best_result.after)) {
                 // Calculate the next score and make sure it is better than the previous
                 best_result = result;
                 best_gradient = gradient;
             }
         }
-        if(best_result.gain <= gain_threshold_) break;
+        if(!best_result.after || (!first && best_result.gain <= gain_threshold_)) break;
+        first = false;
         // 4) Update based on the gradient
         weights += best_gradient * best_result.pos;
         best_score = best_result.after->ConvertToScore();
-- 
2.43.0


From 7a08ed75b3849a45bbb5b03f0ecf00ed7dbb4f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 041/105] fix: greedy MERT stops without reading the missing
 result of its last round

---
 src/lib/tune-greedy-mert.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 9f2d1d4..863d9c0 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -43,7 +43,7 @@ void GreedyMertTask::Run() {
 
 // Constructor
 TuneGreedyMert::TuneGreedyMert() : Tune(),
-                       early_terminate_(false) { }
+                       threads_(0), early_terminate_(false) { }
 
 void TuneGreedyMert::UpdateBest(const SparseMap &gradient, const LineSearchResult &result) {
     boost::mutex::scoped_lock lock(result_mutex_);
@@ -112,10 +112,14 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
 // Tune new weights using greedy mert until the threshold is exceeded
 Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     LineSearchResult result;
+    // The last round finds no gain and thus has no result, so remember the score of the others
+    Real score = TuneMert::LineSearch(weights, SparseMap(), examps_).before->ConvertToScore();
     do {
         result = TuneOnce(weights);
+        if(result.gain > gain_threshold_)
+            score = result.after->ConvertToScore();
     } while(result.gain > gain_threshold_);
-    return result.after->ConvertToScore();
+    return score;
 }
 
 Real TuneGreedyMert::GetBestGain() { return best_result_.gain; }
-- 
2.43.0


From 79306ac5300d39d6b0fce74ae97cd30372b482a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 042/105] fix: greedy MERT reads its best result under the lock
 that guards it

---
 src/lib/tune-greedy-mert.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 863d9c0..cc32577 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -22,8 +22,12 @@ void GreedyMertTask::Run() {
     // Check to make sure that our potential is still higher than the current best
     Real best = tgm_->GetBestGain();
     if((potential_ <= best) ||
-       (tgm_->GetEarlyTerminate() && best >= tgm_->GetGainThreshold()))
+       (tgm_->GetEarlyTerminate() && best >= tgm_->GetGainThreshold())) {
+        // Do not hold back the messages of the following tasks
+        if(collector_)
+            collector_->Write(id_, "", "");
         return;
+    }
     // Mak the gradient and find the ranges
     SparseMap gradient;
     gradient[feature_] = 1;
@@ -86,8 +90,9 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
 
     // Dispatch jobs until the best value exceeds the expected value
     BOOST_REVERSE_FOREACH(const DIPair & val, vals) {
-        if((val.first < best_result_.gain) || 
-           (early_terminate_ && best_result_.gain >= gain_threshold_))
+        Real best_gain = GetBestGain();
+        if((val.first < best_gain) || 
+           (early_terminate_ && best_gain >= gain_threshold_))
             break;
         GreedyMertTask* task = new GreedyMertTask(task_id++, *this, val.second, val.first, out_collect.get());
         // If the threads are not correct
@@ -122,4 +127,7 @@ Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     return score;
 }
 
-Real TuneGreedyMert::GetBestGain() { return best_result_.gain; }
+Real TuneGreedyMert::GetBestGain() {
+    boost::mutex::scoped_lock lock(result_mutex_);
+    return best_result_.gain;
+}
-- 
2.43.0


From f39097247679693e9ff8bdf35e5274d5f3481265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 043/105] fix: online tuning scores hypotheses with lazily
 updated weights

---
 src/include/travatar/weights.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/travatar/weights.h b/src/include/travatar/weights.h
index de19054..25c1ab2 100644
--- a/src/include/travatar/weights.h
+++ b/src/include/travatar/weights.h
@@ -98,6 +98,14 @@ inline Real operator*(const Weights & lhs, const SparseVector & rhs) {
     }
     return ret;
 }
+// Weights that are updated lazily can only be read through non-constant access
+inline Real operator*(Weights & lhs, const SparseVector & rhs) {
+    Real ret = 0;
+    BOOST_FOREACH(const SparsePair & val, rhs.GetImpl()) {
+        ret += val.second * lhs.GetCurrent(val.first);
+    }
+    return ret;
+}
 
 }
 
-- 
2.43.0


From 5105a9c9f05d62b7000015fc0dc446a8d7469563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 044/105] fix: online tuning reports the score of the weights
 it returns

---
 src/lib/tune-online.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-online.cc b/src/lib/tune-online.cc
index 05b69ed..28fee86 100644
--- a/src/lib/tune-online.cc
+++ b/src/lib/tune-online.cc
@@ -115,9 +115,10 @@ Real TuneOnline::RunTuning(SparseMap & kv) {
 
     // Finally, update the stats with the actual weights
     kv = weights->GetFinal();
+    Weights final_weights(kv);
     total_stats.reset((EvalStats*)NULL);
     BOOST_FOREACH(const boost::shared_ptr<TuningExample> & examp, examps_) {
-        const ExamplePair & expair = examp->CalculateModelHypothesis(*weights);
+        const ExamplePair & expair = examp->CalculateModelHypothesis(final_weights);
         if(total_stats.get()==NULL) total_stats=expair.second->Clone();
         else total_stats->PlusEquals(*expair.second);
     }
-- 
2.43.0


From c1900211735f6e53c86743535860377aff0ee35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 045/105] fix: weight ranges are not restricted to integers

---
 src/lib/batch-tune-runner.cc | 4 ++--
 src/lib/travatar-runner.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index aa59a2b..d4eab10 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -154,8 +154,8 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
             if(range_vals.size() != 2 && range_vals.size() != 3)
                 THROW_ERROR("Weight ranges must be in the format MIN|MAX[|NAME]");
             WordId id = (range_vals.size() == 3 ? Dict::WID(range_vals[2]) : -1);
-            Real min_score = (range_vals[0] == "" ? -REAL_MAX : atoi(range_vals[0].c_str()));
-            Real max_score = (range_vals[1] == "" ? REAL_MAX  : atoi(range_vals[1].c_str()));
+            Real min_score = (range_vals[0] == "" ? -REAL_MAX : atof(range_vals[0].c_str()));
+            Real max_score = (range_vals[1] == "" ? REAL_MAX  : atof(range_vals[1].c_str()));
             tune->SetRange(id, min_score, max_score);
         }
     }
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index a5f49e5..2809be0 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -241,8 +241,8 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
                 if(range_vals.size() != 2 && range_vals.size() != 3)
                     THROW_ERROR("Weight ranges must be in the format MIN|MAX[|NAME]");
                 WordId id = (range_vals.size() == 3 ? Dict::WID(range_vals[2]) : -1);
-                Real min_score = (range_vals[0] == "" ? -REAL_MAX : atoi(range_vals[0].c_str()));
-                Real max_score = (range_vals[1] == "" ? REAL_MAX  : atoi(range_vals[1].c_str()));
+                Real min_score = (range_vals[0] == "" ? -REAL_MAX : atof(range_vals[0].c_str()));
+                Real max_score = (range_vals[1] == "" ? REAL_MAX  : atof(range_vals[1].c_str()));
                 weights_->SetRange(id, min_score, max_score);
             }
         }
-- 
2.43.0


From 67ae47bf1061558b051295192167402f396888ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 046/105] fix: MERT respects the weight ranges

---
 src/include/travatar/tune.h |  6 ++++++
 src/lib/tune-mert.cc        | 12 +++++++++---
 src/lib/tune.cc             | 24 ++++++++++++++++++++++++
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/tune.h b/src/include/travatar/tune.h
index 990441a..a6614a2 100644
--- a/src/include/travatar/tune.h
+++ b/src/include/travatar/tune.h
@@ -34,6 +34,12 @@ public:
                                 const SparseMap & weights,
                                 const SparseMap & gradient,
                                 std::pair<Real,Real> range);
+    // The range in which all features stay within their own ranges
+    std::pair<Real,Real> FindGradientRange(
+                                const SparseMap & weights,
+                                const SparseMap & gradient);
+    // Whether all weights are within their ranges
+    bool InRange(const SparseMap & weights) const;
 
     // Getters/Setters
     void SetExamples(const std::vector<boost::shared_ptr<TuningExample> > & examps) { examps_ = examps; }
diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index 4a06e77..cc300bd 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -149,7 +149,10 @@ Real TuneMert::RunTuning(SparseMap & weights) {
 
         // 3) Perform line search over one gradient at a time
         BOOST_FOREACH(const SparseMap & gradient, gradients) {
-            LineSearchResult result = TuneMert::LineSearch(weights, gradient, examps_);
+            // Do not leave the allowed range of the weights
+            pair<Real,Real> range = FindGradientRange(weights, gradient);
+            if(range.first > range.second) continue;
+            LineSearchResult result = TuneMert::LineSearch(weights, gradient, examps_, range);
             // Redo the gain in comparison to the currently saved best score.
             // Given that ties might exist, it is safer to take the gain this way in case
             // a tie results in a change in the best hypothesis.
@@ -169,8 +172,11 @@ Real TuneMert::RunTuning(SparseMap & weights) {
         PRINT_DEBUG("Gradient: " << Dict::PrintSparseMap(best_gradient) << endl << "Change: " << Dict::PrintSparseMap(best_gradient * best_result.pos) << endl << "After: " << Dict::PrintSparseMap(weights) << endl << best_result.after->ConvertToString() << endl, 2);
     }
 
-    // Normalize so that weights add to 1
-    NormalizeL1(weights);
+    // Normalize so that weights add to 1, if this is allowed by their ranges
+    SparseMap normalized(weights);
+    NormalizeL1(normalized);
+    if(InRange(normalized))
+        weights = normalized;
 
     return best_score;
 }
diff --git a/src/lib/tune.cc b/src/lib/tune.cc
index bfcf921..78dba4c 100644
--- a/src/lib/tune.cc
+++ b/src/lib/tune.cc
@@ -42,6 +42,30 @@ pair<Real,Real> Tune::FindGradientRange(
     return ret; 
 }
 
+// Find the gradient's range when every feature has its own range
+pair<Real,Real> Tune::FindGradientRange(
+                                const SparseMap & weights,
+                                const SparseMap & gradient) {
+    pair<Real,Real> ret(-REAL_MAX, REAL_MAX);
+    BOOST_FOREACH(const SparseMap::value_type & grad, gradient) {
+        RangeMap::const_iterator it = ranges_.find(grad.first);
+        SparseMap single; single[grad.first] = grad.second;
+        pair<Real,Real> range = FindGradientRange(weights, single, it == ranges_.end() ? ranges_[-1] : it->second);
+        ret.first = max(range.first, ret.first);
+        ret.second = min(range.second, ret.second);
+    }
+    return ret;
+}
+
+bool Tune::InRange(const SparseMap & weights) const {
+    BOOST_FOREACH(const SparseMap::value_type & val, weights) {
+        RangeMap::const_iterator it = ranges_.find(val.first);
+        if(it == ranges_.end()) it = ranges_.find(-1);
+        if(val.second < it->second.first || val.second > it->second.second) return false;
+    }
+    return true;
+}
+
 TuningExample & Tune::GetExample(int id) {
     return *examps_[id];
 }
-- 
2.43.0


From b591a57969cef876c5028a2c72fb78b8403e1476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 047/105] fix: reading the final perceptron weights does not
 erase from the map it iterates over

---
 src/lib/weights-perceptron.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 7758465..9d33b07 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -10,8 +10,10 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 
 // Get the final values of the weights
 const SparseMap & WeightsPerceptron::GetFinal() {
-    BOOST_FOREACH(SparseMap::value_type val, current_)
-        val.second = GetCurrent(val.first);
+    // Getting the current value may remove it from the map, so iterate over a copy
+    const SparseMap copy(current_);
+    BOOST_FOREACH(const SparseMap::value_type & val, copy)
+        GetCurrent(val.first);
     return current_;
 }
 
-- 
2.43.0


From a3c694b71e41cdd6378a773417f3de1d15326c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 048/105] fix: weights that become non-zero are not regularized
 for the iterations before

---
 src/lib/weights-adagrad.cc    | 2 ++
 src/lib/weights-perceptron.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lib/weights-adagrad.cc b/src/lib/weights-adagrad.cc
index 5ed5d5b..4860328 100644
--- a/src/lib/weights-adagrad.cc
+++ b/src/lib/weights-adagrad.cc
@@ -18,6 +18,8 @@ void WeightsAdagrad::Update(
             varinv_[change_val.first] += change_val.second * change_val.second;
             new_val += rate_ * sqrt(1/varinv_[change_val.first]) * change_val.second;
             current_[change_val.first] = new_val;
+            // Regularization up to now does not concern the new value
+            last_update_[change_val.first] = curr_iter_;
         }
     }
     PRINT_DEBUG(current_ << std::endl, 2);
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 9d33b07..145efa0 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -29,6 +29,8 @@ void WeightsPerceptron::Update(
             Real new_val = GetCurrent(change_val.first) + change_val.second * rate_;
             // And ensure we are in the correct range
             current_[change_val.first] = InRange(new_val, GetRange(change_val.first));
+            // Regularization up to now does not concern the new value
+            last_update_[change_val.first] = curr_iter_;
         }
     }
     curr_iter_++;
-- 
2.43.0


From 8410c1e4ff2e088cbf490c46ebef5619f5fc6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 049/105] fix: adagrad updates stay within the weight ranges

---
 src/lib/weights-adagrad.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/weights-adagrad.cc b/src/lib/weights-adagrad.cc
index 4860328..1b6f170 100644
--- a/src/lib/weights-adagrad.cc
+++ b/src/lib/weights-adagrad.cc
@@ -17,6 +17,9 @@ void WeightsAdagrad::Update(
             Real new_val = GetCurrent(change_val.first);
             varinv_[change_val.first] += change_val.second * change_val.second;
             new_val += rate_ * sqrt(1/varinv_[change_val.first]) * change_val.second;
+            // Ensure that we are in the correct range
+            pair<Real,Real> range = GetRange(change_val.first);
+            new_val = min(max(new_val,range.first), range.second);
             current_[change_val.first] = new_val;
             // Regularization up to now does not concern the new value
             last_update_[change_val.first] = curr_iter_;
-- 
2.43.0


From 5bf024a612d7e40b1e2b44e49aa5526eb602dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 050/105] fix: reading averaged perceptron weights does not
 change their average

---
 src/lib/weights-average-perceptron.cc | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 6308526..df302c9 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -63,22 +63,7 @@ Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) {
     // Non-existant weights are zero
     if(it == current_.end())
         return 0.0;
-    // Find the difference between the last update
-    int diff = curr_iter_ - last_update_[key];
-    if(diff != 0) {
-        Real reg = diff*l1_coeff_;
-        // Find the value
-        if(it->second > 0)
-            it->second = max(it->second-reg,(Real)0.0);
-        else
-            it->second = min(it->second+reg,(Real)0.0);
-        it->second = InRange(it->second, GetRange(key));
-        last_update_[key] = curr_iter_;
-        if(it->second == 0) {
-            current_.erase(it);
-            return 0.0;
-        }
-    }
-    // std::cerr << " RET: " << it->second << std::endl;
-    return it->second;
+    // There is no regularization, so the value has not changed since the last update.
+    // Do not touch last_update_, as the average is only accounted for up to this point.
+    return InRange(it->second, GetRange(key));
 }
-- 
2.43.0


From 22d2394cf239f2f66114abe66e77846be057e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 051/105] fix: rescored n-best lists keep the sentence ids of
 the input

---
 src/lib/rescorer-runner.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rescorer-runner.cc b/src/lib/rescorer-runner.cc
index 9671141..5a32703 100644
--- a/src/lib/rescorer-runner.cc
+++ b/src/lib/rescorer-runner.cc
@@ -146,9 +146,9 @@ void RescorerRunner::Run(const ConfigRescorer & config) {
             Rescore(nbest);
             Print(nbest);
             nbest.clear();
-            sent_++;
         }
-        last_id = id;
+        // Print the same sentence ID as in the input
+        last_id = sent_ = id;
         nbest.push_back(RescorerNbestElement(Dict::ParseWords(columns[1]), 
                                              Dict::ParseSparseVector(columns[3]),
                                              boost::lexical_cast<Real>(columns[2])));
-- 
2.43.0


From 8fea8150386752c63d0cb89d5a661d3827efdb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 052/105] fix: concurrent hulls of one forest do not share
 scores

---
 src/include/travatar/tuning-example-forest.h |  4 ++++
 src/lib/tuning-example-forest.cc             | 12 ++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/include/travatar/tuning-example-forest.h b/src/include/travatar/tuning-example-forest.h
index c394cdb..9801679 100644
--- a/src/include/travatar/tuning-example-forest.h
+++ b/src/include/travatar/tuning-example-forest.h
@@ -5,6 +5,7 @@
 #include <travatar/tuning-example.h>
 #include <travatar/sentence.h>
 #include <boost/shared_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <set>
 #include <cfloat>
 
@@ -86,6 +87,9 @@ protected:
     int id_;
     // Multiplier
     Real mult_;
+    // Finding the best hypothesis changes the scores in the forest, so
+    // only one thread can do so at a time
+    mutable boost::mutex forest_mutex_;
 
 };
 
diff --git a/src/lib/tuning-example-forest.cc b/src/lib/tuning-example-forest.cc
index 8c4628c..5bff929 100644
--- a/src/lib/tuning-example-forest.cc
+++ b/src/lib/tuning-example-forest.cc
@@ -133,10 +133,14 @@ ConvexHull TuningExampleForest::CalculateConvexHull(
         }
     }
     // Calculate the score of the current best hypothesis
-    forest_->ResetViterbiScores();
-    Weights wval(weights);
-    forest_->ScoreEdges(wval);
-    NbestList nbest_list = forest_->GetNbest(1);
+    NbestList nbest_list;
+    {
+        boost::mutex::scoped_lock lock(forest_mutex_);
+        forest_->ResetViterbiScores();
+        Weights wval(weights);
+        forest_->ScoreEdges(wval);
+        nbest_list = forest_->GetNbest(1);
+    }
     EvalStatsPtr curr_stats = measure_->CalculateCachedStats(refs_, nbest_list[0]->GetTrgData(), id_);
     curr_stats->TimesEquals(mult_);
     // If we are not active, return the simple convex hull
-- 
2.43.0


From 0906f835bc267e204521416b58a5f6bfc19b2ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 053/105] fix: L-BFGS restarts do not write to the gradient
 they share

---
 src/include/travatar/tune-lbfgs.h |  4 +---
 src/lib/tune-lbfgs.cc             | 11 ++++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/include/travatar/tune-lbfgs.h b/src/include/travatar/tune-lbfgs.h
index 8181458..d2440d8 100644
--- a/src/include/travatar/tune-lbfgs.h
+++ b/src/include/travatar/tune-lbfgs.h
@@ -18,9 +18,7 @@ class TuneLbfgs : public Tune {
 
 public:
 
-    TuneLbfgs(Gradient* gradient) : iters_(100), iter_(0),
-                  l1_coeff_(0.0),
-                  use_init_(true), gradient_(gradient) { }
+    TuneLbfgs(Gradient* gradient);
 
     ~TuneLbfgs();
 
diff --git a/src/lib/tune-lbfgs.cc b/src/lib/tune-lbfgs.cc
index c3df3fa..c2b5daa 100644
--- a/src/lib/tune-lbfgs.cc
+++ b/src/lib/tune-lbfgs.cc
@@ -17,6 +17,14 @@ using namespace std;
 using namespace boost;
 using namespace travatar;
 
+TuneLbfgs::TuneLbfgs(Gradient* gradient) : iters_(100), iter_(0),
+                  l1_coeff_(0.0),
+                  use_init_(true), gradient_(gradient) {
+    // The optimizer minimizes, so the objective is negated. Do this only once
+    // here, as several runs can share the gradient
+    gradient_->SetMult(-1);
+}
+
 TuneLbfgs::~TuneLbfgs() {
     if(gradient_)
         delete gradient_;
@@ -45,9 +53,6 @@ Real TuneLbfgs::RunTuning(SparseMap & kv) {
     // The final score
     Real last_score = 0.0;
 
-    // Initialize the gradient
-    gradient_->SetMult(-1);
-
     // Initialize the weights appropriately
     vector<Real> weights;
     if(!use_init_)
-- 
2.43.0


From 7ba630352a2fc723d7685e4097c113972c08da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 054/105] fix: trees that end before all parentheses are closed
 are rejected

---
 src/lib/tree-io.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a8c72e6..a207ef7 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -88,6 +88,8 @@ HyperGraph * PennTreeIO::ReadTree(istream & in) {
             IoUtil::Trim(in, WHITE_SPACE);
             if(in.peek() != '(') {
                 string val = IoUtil::ReadUntil(in, ")", WHITE_SPACE_OR_OPENPAREN);
+                if(!in) break;
+                if(!val.length()) THROW_ERROR("Empty word below '"<<sym<<"'");
                 WordId wid = Dict::WID(val);
                 hg->GetWords().push_back(wid);
                 HyperNode* child = new HyperNode(wid, -1, make_pair(pos,pos+1));
@@ -99,6 +101,7 @@ HyperGraph * PennTreeIO::ReadTree(istream & in) {
         }
     }
     delete hg;
+    if(stack.size()) THROW_ERROR("Tree ended without closing all parentheses");
     return NULL;
 }
 
@@ -164,6 +167,7 @@ HyperGraph * RuleTreeIO::ReadTree(istream & in) {
         }
     }
     delete hg;
+    if(stack.size()) THROW_ERROR("Tree ended without closing all parentheses");
     return NULL;
 }
 
-- 
2.43.0


From aa2223fe3311426ddc5a13273de9218cd086adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 055/105] fix: numbers in the target words of JSON forests are
 read as words

---
 src/lib/tree-io.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a207ef7..7fd3efd 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -236,9 +236,13 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                 // Get the words
                 try {
                     BOOST_FOREACH(ptree::value_type &x, t.second.get_child("words")) {
+                        // Variables are negative numbers, everything else
+                        // (including other numbers) is a word
+                        string str = x.second.get<string>("");
                         int val = x.second.get<int>("", INT_MAX);
-                        if(val == INT_MAX)
-                            val = Dict::WID(x.second.get<string>(""));
+                        ostringstream oss; oss << val;
+                        if(val >= 0 || str != oss.str())
+                            val = Dict::WID(str);
                         trg_data.words.push_back(val);
                     }
                 } catch (ptree_bad_path e) { }
-- 
2.43.0


From 55dd41c22a20cde920308691829df45cead1cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 056/105] fix: quotes in feature names are escaped when printed

---
 src/lib/sparse-map.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 416d188..1e2ffb2 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -1,6 +1,7 @@
 
 #include <travatar/sparse-map.h>
 #include <travatar/dict.h>
+#include <travatar/string-util.h>
 #include <boost/foreach.hpp>
 #include <map>
 #include <cmath>
@@ -30,7 +31,7 @@ std::ostream & operator<<(std::ostream & out, const SparseMap & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << "\"" << EscapeQuotes(Dict::WSym(kv.first)) << "\": " << kv.second;
         }
     }
     out << "}";
@@ -180,7 +181,7 @@ std::ostream & operator<<(std::ostream & out, const SparseVector & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs.GetImpl()) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << "\"" << EscapeQuotes(Dict::WSym(kv.first)) << "\": " << kv.second;
         }
     }
     out << "}";
-- 
2.43.0


From dab43bc6acbdb2c317ada288601970d45dda1ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 057/105] fix: JSON edges between nodes that do not exist are
 rejected

---
 src/lib/tree-io.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 7fd3efd..045193f 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -217,11 +217,18 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("edges")) {
         HyperEdge * edge = new HyperEdge;
         edge->SetId(v.second.get<int>("id"));
-        edge->SetHead(ret->GetNode(v.second.get<int>("head")));
+        int head = v.second.get<int>("head");
+        if(head < 0 || head >= ret->NumNodes())
+            THROW_ERROR("Edge head " << head << " is not a node of the hypergraph");
+        edge->SetHead(ret->GetNode(head));
         edge->GetHead()->AddEdge(edge);
         try {
-            BOOST_FOREACH(ptree::value_type &t, v.second.get_child("tails"))
-                edge->AddTail(ret->GetNode(t.second.get<int>("")));
+            BOOST_FOREACH(ptree::value_type &t, v.second.get_child("tails")) {
+                int tail = t.second.get<int>("");
+                if(tail < 0 || tail >= ret->NumNodes())
+                    THROW_ERROR("Edge tail " << tail << " is not a node of the hypergraph");
+                edge->AddTail(ret->GetNode(tail));
+            }
         } catch (ptree_bad_path e) { }
         try {
             vector<SparsePair> temp;
-- 
2.43.0


From 37f503b6936528b1ed1363f3bb7e8ea4bdb9fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 058/105] fix: Egret edges without a score are rejected

---
 src/lib/tree-io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 045193f..e8e2d50 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -353,7 +353,7 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         }
         if(buff != "|||") THROW_ERROR("||| not found in Egret node string: " << line);
         // Finally, read the score and add it to a parse
-        iss >> score;
+        if(!(iss >> score)) THROW_ERROR("Score not found in Egret node string: " << line);
         edge->SetScore(score);
         if(!normalize_) edge->GetFeatures().Add(parse_id, score);
     }
-- 
2.43.0


From eb99f9beaca1d6dae9822c06d4be0075d18e8892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 059/105] fix: a word repeated in an Egret forest is a terminal
 of its own at each place

---
 src/include/travatar/tree-io.h |  3 ++-
 src/lib/tree-io.cc             | 21 +++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/include/travatar/tree-io.h b/src/include/travatar/tree-io.h
index 0f4d614..883de26 100644
--- a/src/include/travatar/tree-io.h
+++ b/src/include/travatar/tree-io.h
@@ -69,7 +69,8 @@ public:
     void SetNormalize(bool normalize) { normalize_ = normalize; }
     bool GetNormalize(bool normalize) const { return normalize_; }
 private:
-    HyperNode * MakeEgretNode(const std::string & str_id, SymbolSet<int> & node_map, HyperGraph * graph);
+    HyperNode * MakeEgretNode(const std::string & str_id, SymbolSet<int> & node_map, HyperGraph * graph,
+                              const HyperNode * head = NULL);
 
     // Whether to normalize edge posteriors to per-node confusions (def: true)
     bool normalize_;
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index e8e2d50..dc79ee0 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -285,16 +285,25 @@ void JSONTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
     out << "]}";
 }
 
-HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, SymbolSet<int> & node_map, HyperGraph * graph) {
+HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, SymbolSet<int> & node_map, HyperGraph * graph, const HyperNode * head) {
+    regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
+    smatch node_match;
+    bool has_span = regex_match(str_id, node_match, node_regex);
+    // Terminals are written without their span, so the same word can appear
+    // at several places in the sentence. Tell them apart by the parent's span
+    string key = str_id;
+    if(!has_span && head != NULL) {
+        ostringstream oss;
+        oss << str_id << " " << head->GetSpan().first << " " << head->GetSpan().second;
+        key = oss.str();
+    }
     // Try to find the node
-    int id = node_map.GetId(str_id, true);
+    int id = node_map.GetId(key, true);
     if(id < graph->NumNodes()) return graph->GetNode(id);
     else if (id != graph->NumNodes()) THROW_ERROR("Mismatched ID numbers in MakeEgretTreeNode()");
     // Make the node if it doesn't exist
-    regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
-    smatch node_match;
     HyperNode * new_node;
-    if(!regex_match(str_id, node_match, node_regex)) {
+    if(!has_span) {
         new_node = new HyperNode(Dict::WID(str_id));
     } else {
         new_node = new HyperNode(Dict::WID(node_match[1]), 
@@ -345,7 +354,7 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         if(buff != "=>") THROW_ERROR("=> not found in Egret node string: " << line);
         // Read the tail nodes
         while(iss >> buff && buff != "|||") {
-            HyperNode * tail = MakeEgretNode(buff, node_map, ret);
+            HyperNode * tail = MakeEgretNode(buff, node_map, ret, head);
             // Set terminal node's spans to those of their parent
             if(tail->GetSpan().first == -1)
                 tail->SetSpan(head->GetSpan());
-- 
2.43.0


From 3d5ecb0ed96c3b7b34a829ff3733db7d056f4a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 060/105] fix: empty trees can be written in the rule and Moses
 XML formats

---
 src/lib/tree-io.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index dc79ee0..ee43520 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -188,6 +188,8 @@ void RuleTreeIO::WriteNode(const vector<WordId> & words,
 }
 
 void RuleTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
+    // Empty trees are written as empty lines
+    if(tree.GetNodes().size() == 0) return;
     WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
 
@@ -430,5 +432,7 @@ void MosesXMLTreeIO::WriteNode(const vector<WordId> & words,
 }
 
 void MosesXMLTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
+    // Empty trees are written as empty lines
+    if(tree.GetNodes().size() == 0) return;
     WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
-- 
2.43.0


From ef8dcaf64e5af97a4e497b1b6f29888145688730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 061/105] fix: tree-converter reports input files that cannot
 be opened

---
 src/lib/tree-converter-runner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/tree-converter-runner.cc b/src/lib/tree-converter-runner.cc
index 4f9079c..f6f1f72 100644
--- a/src/lib/tree-converter-runner.cc
+++ b/src/lib/tree-converter-runner.cc
@@ -90,7 +90,7 @@ void TreeConverterRunner::Run(const ConfigTreeConverterRunner & config) {
     istream * src_in;
     if(argv.size() == 1 && argv[0] != "-") {
         src_in = new ifstream(argv[0].c_str());
-        if(!src_in) THROW_ERROR("Could not find src file: " << argv[0]);
+        if(!*src_in) THROW_ERROR("Could not find src file: " << argv[0]);
     } else {
         src_in = &cin;
     }
-- 
2.43.0


From cc63dd2c2038cfc9b8aa6416ea421ef98dd2c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 062/105] fix: variables with an empty label are rejected

---
 src/lib/dict.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/dict.cc b/src/lib/dict.cc
index 5d2b7b5..e40fdf8 100644
--- a/src/lib/dict.cc
+++ b/src/lib/dict.cc
@@ -183,6 +183,7 @@ CfgData Dict::ParseAnnotatedWords(const std::string & str) {
             data.words.push_back(-1 - id);
             if(end != bs) {
                 if(buff[end] != ':') THROW_ERROR("Bad rule string. Non-terminals can only be followed by a space or colon, but a different character '" << buff[end] << "' was found: " << str);
+                if(end+1 == bs) THROW_ERROR("Bad rule string. The colon after a non-terminal must be followed by a label: " << str);
                 if(id >= (int)data.syms.size())
                     data.syms.resize(id+1, -1);
                 data.syms[id] = Dict::WID(buff.substr(end+1));
-- 
2.43.0


From 964a85949ee34aa202c70c9ce1b4d07dbd1dae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 063/105] fix: feature values that are not numbers are rejected

---
 src/lib/dict.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/dict.cc b/src/lib/dict.cc
index e40fdf8..8f7a104 100644
--- a/src/lib/dict.cc
+++ b/src/lib/dict.cc
@@ -33,6 +33,13 @@ std::string Dict::PrintSparseVector(const SparseVector & feats) {
     return oss.str();
 }
 // Get the word ID
+// Get the value of a feature, all of the string must be a number
+inline Real ParseFeatureValue(const std::string & buff, size_t pos) {
+    char * end;
+    Real ret = strtod(buff.c_str()+pos, &end);
+    if(end == buff.c_str()+pos || *end != 0) THROW_ERROR("Bad feature value @ " << buff);
+    return ret;
+}
 SparseMap Dict::ParseSparseMap(std::istream & iss) {
     std::string buff;
     SparseMap ret;
@@ -41,7 +48,7 @@ SparseMap Dict::ParseSparseMap(std::istream & iss) {
         if(pos == string::npos) THROW_ERROR("Bad feature string @ " << buff);
         WordId feature_id = Dict::WID(buff.substr(0,pos));
         if (ret.find(feature_id) != ret.end()) THROW_ERROR("Found duplicated feature string @ " << buff);
-        ret.insert(make_pair(feature_id, atof(buff.substr(pos+1).c_str())));
+        ret.insert(make_pair(feature_id, ParseFeatureValue(buff, pos+1)));
     }
     return ret;
 }
@@ -55,7 +62,7 @@ SparseVector Dict::ParseSparseVector(std::istream & iss) {
     while(iss >> buff) {
         size_t pos = buff.rfind('=');
         if(pos == string::npos) THROW_ERROR("Bad feature string @ " << buff);
-        ret.push_back(make_pair(Dict::WID(buff.substr(0, pos)), atof(buff.substr(pos+1).c_str())));
+        ret.push_back(make_pair(Dict::WID(buff.substr(0, pos)), ParseFeatureValue(buff, pos+1)));
     }
     return SparseVector(ret);
 }
-- 
2.43.0


From 8ffe91498257315331474ff2ec09d283dc2f6547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 064/105] fix: alignment points that are not numbers are
 rejected

---
 src/lib/alignment.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/alignment.cc b/src/lib/alignment.cc
index 3f9edee..9e38078 100644
--- a/src/lib/alignment.cc
+++ b/src/lib/alignment.cc
@@ -30,6 +30,9 @@ Alignment::AlignmentPair Alignment::SplitAlignment(const string & str) {
     AlignmentPair ret;
     istringstream left(left_right[0]); left >> ret.first;
     istringstream right(left_right[1]); right >> ret.second;
+    // Both sides must be numbers (possibly with some white space around them)
+    if(!left || !right || !(left >> ws).eof() || !(right >> ws).eof())
+        THROW_ERROR("Bad alignment string (both sides must be numbers)" << endl << str);
     return ret;
 }
 Alignment Alignment::FromString(const string & str) {
-- 
2.43.0


From 3559ee8257c50061a1ed430b5171aafd9e580fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 065/105] fix: building one factor of a rule does not remove
 the others

---
 src/include/travatar/translation-rule.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/translation-rule.h b/src/include/travatar/translation-rule.h
index caf51d8..b893abd 100644
--- a/src/include/travatar/translation-rule.h
+++ b/src/include/travatar/translation-rule.h
@@ -44,17 +44,17 @@ public:
     SparseVector & GetFeatures() { return features_; }
 
     void AddTrgWord(WordId word, int factor = 0) {
-        if(factor <= (int)trg_data_.size())
+        if((int)trg_data_.size() <= factor)
             trg_data_.resize(factor+1);
         trg_data_[factor].words.push_back(word);
     }
     void AddTrgSym(WordId sym, int factor = 0) {
-        if(factor <= (int)trg_data_.size())
+        if((int)trg_data_.size() <= factor)
             trg_data_.resize(factor+1);
         trg_data_[factor].syms.push_back(sym);
     }
     void SetTrgLabel(WordId lab, int factor = 0) {
-        if(factor <= (int)trg_data_.size())
+        if((int)trg_data_.size() <= factor)
             trg_data_.resize(factor+1);
         trg_data_[factor].label = lab;
     }
-- 
2.43.0


From 13d4511089ea8a43a42d92f2a44c1c060c76cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 066/105] fix: word splitting keeps scores, features and words
 with siblings

Splitting a word replaced the first edge of its preterminal, dropping its
score and features; words below other edges or nodes kept the old word and
spans.
---
 src/lib/word-splitter.cc | 70 +++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/lib/word-splitter.cc b/src/lib/word-splitter.cc
index 95fd738..f17ec85 100644
--- a/src/lib/word-splitter.cc
+++ b/src/lib/word-splitter.cc
@@ -38,37 +38,49 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
         std::pair<int,int> span = node->GetSpan(),
                            new_span(*ids[span.first].begin(),
                                     *ids[span.second-1].rbegin()+1);
-        // If it is a non-terminal
-        // that has been split, create new nodes as necessary
-        if(node->IsPreTerminal() && span.first == span.second-1 && ids[span.first].size() > 1) {
-            pair<int, WordId> node_idx = make_pair(span.first,node->GetSym());
-            if(new_nodes.find(node_idx) == new_nodes.end()) {
-                vector<HyperNode*> split_nodes;
-                for(int i = new_span.first; i < new_span.second; i++) {
-                    // Add a new pre-terminal
-                    HyperNode* new_pre = new HyperNode(node->GetSym(), node->GetTrgSym(), make_pair(i,i+1));
-                    ret->AddNode(new_pre);
-                    split_nodes.push_back(new_pre);
-                    // Add a new terminal
-                    HyperNode* new_term = new HyperNode(new_wids[i], -1, make_pair(i,i+1));
-                    ret->AddNode(new_term);
-                    // Add a new edge
-                    HyperEdge* new_edge = new HyperEdge(new_pre);
-                    new_edge->AddTail(new_term);
-                    ret->AddEdge(new_edge); new_pre->AddEdge(new_edge);
+        // Check each edge for words that have been split, and replace them
+        BOOST_FOREACH(HyperEdge* edge, node->GetEdges()) {
+            vector<HyperNode*> new_tails;
+            BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
+                // Note that the span of the tail may be modified already
+                std::pair<int,int> tail_span = hg.GetNode(tail->GetId())->GetSpan();
+                if(!tail->IsTerminal() || tail_span.first != tail_span.second-1 || ids[tail_span.first].size() <= 1) {
+                    new_tails.push_back(tail);
+                    continue;
                 }
-                new_nodes.insert(make_pair(node_idx, split_nodes));
-            }
-            vector<HyperEdge*> & edges = node->GetEdges();
-            HyperEdge* edge = new HyperEdge(node);
-            edge->SetId(edges[0]->GetId());
-            delete ret->GetEdges()[edge->GetId()];
-            ret->GetEdges()[edge->GetId()] = edge;
-            BOOST_FOREACH(HyperNode* new_node, new_nodes[node_idx]) {
-                edge->AddTail(new_node);
+                // If this is the only word under a node, create new
+                // pre-terminals. Otherwise, only create new terminals
+                bool is_pre = edge->NumTails() == 1 && span == tail_span;
+                pair<int, WordId> node_idx = make_pair(tail_span.first, is_pre ? node->GetSym() : -1);
+                if(new_nodes.find(node_idx) == new_nodes.end()) {
+                    vector<HyperNode*> split_nodes;
+                    BOOST_FOREACH(int i, ids[tail_span.first]) {
+                        HyperNode* new_pre = NULL;
+                        if(is_pre) {
+                            // Add a new pre-terminal
+                            new_pre = new HyperNode(node->GetSym(), node->GetTrgSym(), make_pair(i,i+1));
+                            ret->AddNode(new_pre);
+                            split_nodes.push_back(new_pre);
+                        }
+                        // Add a new terminal
+                        HyperNode* new_term = new HyperNode(new_wids[i], -1, make_pair(i,i+1));
+                        ret->AddNode(new_term);
+                        if(is_pre) {
+                            // Add a new edge
+                            HyperEdge* new_edge = new HyperEdge(new_pre);
+                            new_edge->AddTail(new_term);
+                            ret->AddEdge(new_edge); new_pre->AddEdge(new_edge);
+                        } else {
+                            split_nodes.push_back(new_term);
+                        }
+                    }
+                    new_nodes.insert(make_pair(node_idx, split_nodes));
+                }
+                BOOST_FOREACH(HyperNode* new_node, new_nodes[node_idx])
+                    new_tails.push_back(new_node);
             }
-            // delete edges[0]; 
-            edges[0] = edge;
+            // The edge keeps its score and features
+            edge->SetTails(new_tails);
         }
         node->SetSpan(new_span);
     }
-- 
2.43.0


From db8caed289c72ba682406df76af6af86042d1bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 067/105] fix: n-best trimming of an empty forest does not
 crash

---
 src/lib/trimmer-nbest.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/trimmer-nbest.cc b/src/lib/trimmer-nbest.cc
index 090b362..794f96e 100644
--- a/src/lib/trimmer-nbest.cc
+++ b/src/lib/trimmer-nbest.cc
@@ -12,9 +12,10 @@ using namespace boost;
 void TrimmerNbest::FindActive(const HyperGraph & hg,
                 std::map<int,int> & active_nodes,
                 std::map<int,int> & active_edges) const {
+    // There is nothing to preserve in an empty graph
+    if(hg.GetNodes().size() == 0) return;
     // Always preserve the root node
-    if(hg.GetNodes().size() != 0)
-        Trimmer::AddId(active_nodes, 0);
+    Trimmer::AddId(active_nodes, 0);
     // Get the n-best
     // TODO: const_cast is a bit dangerous, but let's leave it for now
     NbestList nbest = const_cast<HyperGraph&>(hg).GetNbest(n_);;
-- 
2.43.0


From ce4b44a05c4533d6c18294f604542a17577b69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 068/105] fix: the decoder trims output forests when
 -forest_nbest_trim is given

---
 src/lib/travatar-runner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 2809be0..3fc6a8e 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -361,7 +361,7 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Get the class to trim the forest if necessary
-    scoped_ptr<Trimmer> trimmer_;
+    trimmer_.reset();
     if(config.GetInt("forest_nbest_trim") != 0)
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
-- 
2.43.0


From 7eb81479b73522a711cfb0cc5eb57a1cc6970816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 069/105] fix: writing n-best lists or traces to STDOUT does
 not crash the decoder

---
 src/lib/travatar-runner.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 3fc6a8e..466221a 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -174,6 +174,9 @@ void TravatarRunnerTask::Run() {
 }
 
 
+// The standard streams are not ours to delete
+static void KeepStream(ostream *) { }
+
 // Run the model
 void TravatarRunner::Run(const ConfigTravatarRunner & config) {
 
@@ -333,13 +336,13 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Open the n-best output stream if it exists
-    scoped_ptr<ostream> nbest_out;
+    boost::shared_ptr<ostream> nbest_out;
     scoped_ptr<OutputCollector> nbest_collector;
     if(config.GetString("nbest_out") != "") {
         if (config.GetString("nbest_out") == "STDOUT") {
-            nbest_out.reset(&cout);
+            nbest_out.reset(&cout, KeepStream);
         } else if (config.GetString("nbest_out") == "STDERR") {
-            nbest_out.reset(&cerr);
+            nbest_out.reset(&cerr, KeepStream);
         } else {
             nbest_out.reset(new ofstream(config.GetString("nbest_out").c_str()));
         }
@@ -366,13 +369,13 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
     // Open the trace output stream if it exists
-    scoped_ptr<ostream> trace_out;
+    boost::shared_ptr<ostream> trace_out;
     scoped_ptr<OutputCollector> trace_collector;
     if(config.GetString("trace_out") != "") {
         if (config.GetString("trace_out") == "STDOUT") {
-            trace_out.reset(&cout);
+            trace_out.reset(&cout, KeepStream);
         } else if (config.GetString("trace_out") == "STDERR") {
-            trace_out.reset(&cerr);
+            trace_out.reset(&cerr, KeepStream);
         } else {
             trace_out.reset(new ofstream(config.GetString("trace_out").c_str()));
         }
-- 
2.43.0


From 44fee737c4c22e07ed443304a46424f67ef2ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 070/105] fix: n-best trees are complete with and without a
 language model

The topmost rule was skipped, which without a language model is the root of
the tree (and out of bounds for a single rule), and words with special
characters were taken for parts of a regular expression.
---
 src/lib/hyper-graph.cc | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index aa7583e..0b55b33 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -1,7 +1,6 @@
 #include <queue>
 #include <map>
 #include <boost/shared_ptr.hpp>
-#include <boost/regex.hpp>
 #include <lm/left.hh>
 #include <lm/model.hh>
 #include <travatar/weights.h>
@@ -401,20 +400,35 @@ void HyperPath::Print(std::ostream & out) const {
 }
 
 
-std::string HyperPath::GetTreeStr() const{
-    if ((int)edges_.size() < 1) return "";
-
-    string tree = edges_[1]->GetSrcStr();
-    boost::regex e ("\\bx[0-9]:(.*?) ");
-    boost::smatch m;
-    for(int i = 2; i < (int)edges_.size(); i++){
-       string nextTree = edges_[i]->GetSrcStr() + " ";
-       if(boost::regex_search(tree, m, e) == true){
-           tree = boost::regex_replace(tree, e, nextTree, boost::format_first_only);
-       }
+// Print the source side of the edge and all the edges below it
+static std::string EdgeTreeStr(const std::vector<HyperEdge*> & edges, int & idx) {
+    const HyperEdge * edge = edges[idx++];
+    vector<string> child_strs;
+    for(int i = 0; i < (int)edge->GetTails().size(); i++)
+        child_strs.push_back(EdgeTreeStr(edges, idx));
+    // Edges that are not rules (e.g. the root of the language model)
+    if(edge->GetSrcStr().empty())
+        return child_strs.size() ? child_strs[0] : "";
+    // Replace the variables in order
+    ostringstream oss;
+    vector<string> words = Tokenize(edge->GetSrcStr(), " ");
+    int child = 0;
+    for(int i = 0; i < (int)words.size(); i++) {
+        const string & word = words[i];
+        if(i != 0) oss << ' ';
+        if(word.length() > 2 && word[0] == 'x' && isdigit(word[1]) && word.find(':') != string::npos
+           && child < (int)child_strs.size())
+            oss << child_strs[child++];
+        else
+            oss << word;
     }
+    return oss.str();
+}
 
-    return tree;
+std::string HyperPath::GetTreeStr() const{
+    if ((int)edges_.size() < 1) return "";
+    int idx = 0;
+    return EdgeTreeStr(edges_, idx);
 }
 
 // Calculate the features for this path by simply adding up all the features
-- 
2.43.0


From 8bd09067fb0765b24ef652532d44d0d8ae5db953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 071/105] fix: online tuning skips sentences that could not be
 translated

---
 src/lib/weights-pairwise.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/weights-pairwise.cc b/src/lib/weights-pairwise.cc
index c5f170e..b3882d6 100644
--- a/src/lib/weights-pairwise.cc
+++ b/src/lib/weights-pairwise.cc
@@ -13,6 +13,8 @@ void WeightsPairwise::Adjust(const Sentence & src,
                              const std::vector<Sentence> & refs,
                              const EvalMeasure & eval,
                              const NbestList & nbest) {
+    // Sentences that could not be translated do not change anything
+    if(nbest.size() == 0) return;
     // Find the oracle
     int oracle = -1;
     Real oracle_eval = -REAL_MAX;
-- 
2.43.0


From 50e86d69bb9946566da542b25bb8b3a3b7305f78 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 072/105] fix: threads shared the barred symbol cache of the
 binarizer without a lock

---
 src/include/travatar/binarizer.h | 5 ++++-
 src/lib/binarizer.cc             | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/binarizer.h b/src/include/travatar/binarizer.h
index 30edb48..f4f8a14 100644
--- a/src/include/travatar/binarizer.h
+++ b/src/include/travatar/binarizer.h
@@ -3,6 +3,7 @@
 
 #include <travatar/graph-transformer.h>
 #include <travatar/sentence.h>
+#include <boost/thread/mutex.hpp>
 #include <map>
 #include <string>
 
@@ -12,7 +13,9 @@ namespace travatar {
 class Binarizer : public GraphTransformer {
 
 protected:
-    std::map<int,int> barred_map_;
+    // A cache that is shared by all threads using this binarizer
+    mutable std::map<int,int> barred_map_;
+    mutable boost::mutex barred_mutex_;
 
 public:
 
diff --git a/src/lib/binarizer.cc b/src/lib/binarizer.cc
index 5e8b38c..9eb6c20 100644
--- a/src/lib/binarizer.cc
+++ b/src/lib/binarizer.cc
@@ -25,9 +25,10 @@ Binarizer * Binarizer::CreateBinarizerFromString(const std::string & bin) {
 }
 
 WordId Binarizer::GetBarredSymbol(WordId sym) const {
+    boost::mutex::scoped_lock lock(barred_mutex_);
     map<int,int>::const_iterator it = barred_map_.find(sym);
     if(it != barred_map_.end()) return it->second;
     WordId ret = Dict::WID(Dict::WSym(sym)+"'");
-    const_cast<map<int,int>& >(barred_map_).insert(make_pair(sym, ret));
+    barred_map_.insert(make_pair(sym, ret));
     return ret;
 }
-- 
2.43.0


From c529b572a0d61285315110671f2df78f94926433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 073/105] fix: look up words with quotes or backslashes
 unescaped in score-t2s.pl

---
 script/train/score-t2s.pl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index d028c13..0706628 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -63,7 +63,10 @@ if($LEX_PROB_FILE) {
 sub strip_arr {
     my @ret;
     while($_[0] =~ /"([^ ]+)"/g) {
-        push @ret, $1;
+        my $word = $1;
+        # The rules escape quotes and backslashes, the lexicon does not
+        $word =~ s/\\(.)/$1/g;
+        push @ret, $word;
     }
     return @ret;
 }
-- 
2.43.0


From fa0638311e066e2464b8f38204c9f517203a5e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 074/105] fix: average the lexical probabilities of each target
 word in score-t2s.pl

---
 script/train/score-t2s.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index 0706628..475aa16 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -80,8 +80,8 @@ sub m1prob {
     if($LEX_ALIGNED and $align) {
         my (@probs, @num);
         while($align =~ /([0-9]+)-([0-9]+)/g) {
-            $probs[$1] += $lex{"$trgarr->[$2]\t$srcarr->[$1]"};
-            $num[$1] += 1;
+            $probs[$2] += $lex{"$trgarr->[$2]\t$srcarr->[$1]"};
+            $num[$2] += 1;
         }
         for(0 .. @$trgarr-1) {
             my $prob = ($num[$_] ? $probs[$_]/$num[$_] : $lex{"$trgarr->[$_]\tNULL"});
-- 
2.43.0


From 8d5178513d5db72c7438f626b995eb12f9e2de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 075/105] fix: label features for labels with % signs and rules
 without a target label

---
 script/train/score-t2s.pl | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index 475aa16..901e493 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -128,10 +128,8 @@ sub print_counts {
         # If we are using target side syntax and the rule is bad
         my $extra_feat;
         if($SYNTAX_FEATS) {
-            $src =~ /^([^ ]+) /;
-            my $src_lab = $1;
-            $trg =~ /@ ([^ ]+)/; #~ / @ ([^ ]+)/
-            my $trg_lab = $1;
+            my ($src_lab) = ($src =~ /^([^ ]+) /);
+            my ($trg_lab) = ($trg =~ /@ ([^ ]+)/); #~ / @ ([^ ]+)/
             $extra_feat .= " ${PREFIX}isx=1" if($TRG_SYNTAX and $trg_lab eq "\@X\@");
             $extra_feat .= " ${PREFIX}sl_${src_lab}=1" if $SRC_LABEL and $src_lab;
             $extra_feat .= " ${PREFIX}tl_${trg_lab}=1" if $TRG_LABEL and $trg_lab;
@@ -139,7 +137,7 @@ sub print_counts {
         }
         # Find the counts/probabilities
         my $lprob = ($cnt > 0) ? log($cnt/$sum) : -99;
-        print "$src ||| $trg ||| ".sprintf("${PREFIX}${COND_PREFIX}p=%f$extra_feat", $lprob);
+        print "$src ||| $trg ||| ".sprintf("${PREFIX}${COND_PREFIX}p=%f", $lprob).$extra_feat;
         printf " ${PREFIX}${COND_PREFIX}l=%f", m1prob(\@srcarr, \@trgarr, $bestalign) if $LEX_PROB_FILE;
         if($JOINT) {
             printf " ${PREFIX}p=1";
-- 
2.43.0


From 4ff73b72f71a6d5868c082cd54b7959249231924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 076/105] Revert "fix: look up words with quotes or backslashes
 unescaped in score-t2s.pl"

This reverts commit c529b572a0d61285315110671f2df78f94926433.
---
 script/train/score-t2s.pl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index 901e493..11be791 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -63,10 +63,7 @@ if($LEX_PROB_FILE) {
 sub strip_arr {
     my @ret;
     while($_[0] =~ /"([^ ]+)"/g) {
-        my $word = $1;
-        # The rules escape quotes and backslashes, the lexicon does not
-        $word =~ s/\\(.)/$1/g;
-        push @ret, $word;
+        push @ret, $1;
     }
     return @ret;
 }
-- 
2.43.0


From ed1e10532d2fbafe4cd213f391f73c2d3679bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 077/105] fix: filter-rt.pl skipped every second of several
 adjacent words and variables

---
 script/train/filter-rt.pl | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index 8e707ef..fe312d0 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -62,12 +62,11 @@ while($line = <STDIN>) {
     die "Wrong number of columns in $line" if @cols < 2;
     if(@cols == 2) { push @cols, ""; }
     my ($term, $nonterm, $bad, @currsrc);
-    while($cols[0] =~ / ("([^ ]+)"|x\d+:[^ ]+) /g) {
-        my $myid = $2;
-        if($myid) {
+    foreach my $tok (split(/ +/, $cols[0])) {
+        if($tok =~ /^"(.+)"$/) {
             $term++;
-            push @currsrc, $myid;
-        } else {
+            push @currsrc, $1;
+        } elsif($tok =~ /^x\d+:/) {
             $nonterm++;
             if(@currsrc and not exists $src{"@currsrc"}) {
                 $bad = 1;
-- 
2.43.0


From 4f3ce2e5580669b0d8966f953018b21cdd080124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 078/105] fix: filter-rt.pl did not match the last word of a
 line of plain text

---
 script/train/filter-rt.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index fe312d0..3c2e779 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -42,6 +42,7 @@ if($SRC) {
             chomp;
             @sent = split(/ +/);
         } elsif ($SRC_FORMAT eq "word") {
+            chomp;
             @sent = split(/ +/);
         } else {
             die "Illegal source format: $SRC_FORMAT";
-- 
2.43.0


From ade03aafea5de1d352698f661f67c2d9ecff31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 079/105] fix: filter-rt.pl without a source text dropped all
 rules with words

---
 script/train/filter-rt.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index 3c2e779..57e937a 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -69,13 +69,13 @@ while($line = <STDIN>) {
             push @currsrc, $1;
         } elsif($tok =~ /^x\d+:/) {
             $nonterm++;
-            if(@currsrc and not exists $src{"@currsrc"}) {
+            if($SRC and @currsrc and not exists $src{"@currsrc"}) {
                 $bad = 1;
                 last;
             }
             @currsrc = ();
         }
     }
-    $bad = 1 if ($bad or ($term > $LEN) or ($nonterm > $NTLEN) or (@currsrc and not exists $src{"@currsrc"}));
+    $bad = 1 if ($bad or ($term > $LEN) or ($nonterm > $NTLEN) or ($SRC and @currsrc and not exists $src{"@currsrc"}));
     if(!$bad) { print "$line\n"; }
 }
-- 
2.43.0


From 3831c2eba924cf09d25ae8ae64080331bbe7dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 080/105] fix: nbest-uniq.pl kept earlier entries for the last
 sentence and after sentences without entries

---
 script/mert/nbest-uniq.pl | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/script/mert/nbest-uniq.pl b/script/mert/nbest-uniq.pl
index 016780b..6ada10b 100755
--- a/script/mert/nbest-uniq.pl
+++ b/script/mert/nbest-uniq.pl
@@ -17,7 +17,25 @@ for(@ARGV) {
    push @handles, $fh;
 }
 
-my (%curr, %next);
+my %curr;
+
+# Load the previous entries up to the sentence, keeping the first line of the following one
+my @ahead;
+sub load_curr {
+    my $last = shift;
+    %curr = ();
+    foreach my $i (0 .. $#handles) {
+        while(defined($ahead[$i]) or defined($ahead[$i] = readline($handles[$i]))) {
+            my $val = $ahead[$i];
+            chomp $val;
+            my @arr = split(/ \|\|\| /, $val);
+            last if $arr[0] > $last;
+            $arr[3] = join(" ", sort(split(/ /, $arr[3])));
+            $curr{"$arr[0] ||| $arr[1] ||| $arr[3]"}++;
+            $ahead[$i] = undef;
+        }
+    }
+}
 
 sub print_save {
     for(@_) {
@@ -36,22 +54,7 @@ while(<STDIN>) {
     my $curr_line = $_;
     if($1 != $last) {
         my $next = $1;
-        %curr = %next;
-        %next = ();
-        for(@handles) {
-            while(my $val = <$_>) {
-                chomp $val;
-                my @arr = split(/ \|\|\| /, $val);
-                $arr[3] = join(" ", sort(split(/ /, $arr[3])));
-                my $id = "$arr[0] ||| $arr[1] ||| $arr[3]";
-                if($arr[0] != $last) {
-                    $next{$id}++;
-                    last;
-                } else {
-                    $curr{$id}++;
-                }
-            }
-        }
+        load_curr($last);
         print_save(@save);
         @save = ($curr_line);
         $last = $next;
@@ -59,4 +62,5 @@ while(<STDIN>) {
         push @save, $_;
     }
 }
+load_curr($last);
 print_save(@save);
-- 
2.43.0


From 5992d6eea8d9e4756451b90c496ce9695b58cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 081/105] fix: filter-rule-table.py took the count of the
 target side for the count of the rule

---
 script/train/filter-rule-table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/filter-rule-table.py b/script/train/filter-rule-table.py
index 3100bc7..3dedf8b 100755
--- a/script/train/filter-rule-table.py
+++ b/script/train/filter-rule-table.py
@@ -144,7 +144,7 @@ def parseRule(line):
     if len(cols) > 4:
         counts = cols[3].split()
         if len(counts) == 3:
-            ruleCount = float(counts[2])
+            ruleCount = float(counts[0])
     return (rhsSourceSymbols, ruleCount)
 
 def isNT(symbol):
-- 
2.43.0


From 9c743131eb94961af7ec8ba3ccd3a11d4c0f1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 082/105] fix: filter-rule-table.py took words in square
 brackets for variables

---
 script/train/filter-rule-table.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/script/train/filter-rule-table.py b/script/train/filter-rule-table.py
index 3dedf8b..a9581bd 100755
--- a/script/train/filter-rule-table.py
+++ b/script/train/filter-rule-table.py
@@ -129,10 +129,7 @@ def calcTravatarRHS(col):
         elif x[0] == '"' and x[-1] == '"':
             ret.append(x[1:-1])
         elif x[0] == 'x' and x[1].isdigit():
-            if len(x) > 3:
-                ret.append('[%s]' % x[3:])
-            else:
-                ret.append('[X]')
+            ret.append(None)
     return ret
 
 # Parse a line of the rule table and return a tuple containing two items,
@@ -148,7 +145,7 @@ def parseRule(line):
     return (rhsSourceSymbols, ruleCount)
 
 def isNT(symbol):
-    return symbol[0] == '[' and symbol[-1] == ']'
+    return symbol is None
 
 def isNonInitialRule(rhs):
     for symbol in rhs:
-- 
2.43.0


From da5218f09c166fb94c0b5963be7747deef82f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 083/105] fix: filter-model.pl overwrote models of the same
 name from different directories

---
 script/train/filter-model.pl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/script/train/filter-model.pl b/script/train/filter-model.pl
index e81ac6d..f8db65f 100755
--- a/script/train/filter-model.pl
+++ b/script/train/filter-model.pl
@@ -14,14 +14,18 @@ if(@ARGV != 4) {
     exit 1;
 }
 
+my (@models, @conf, @outputs);
+
 sub convert_to_output {
     my $str = shift;
     $str =~ s/^.*\///g;
+    # Models of the same name in different directories need different files
+    my ($base, $num) = ($str, 0);
+    $str = (++$num)."-$base" while grep { $_ eq "$ARGV[2]/$str" } @outputs;
     return "$ARGV[2]/$str";
 }
 
 # Read in the configuration file
-my (@models, @conf, @outputs);
 open FILE0, "<:utf8", $ARGV[0] or die "Couldn't open $ARGV[0]\n";
 while(<FILE0>) {
     chomp;
-- 
2.43.0


From 915e050a9a0ab0401093f8b84190cc8b7a1ac290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 084/105] fix: filter-rule-table.py split words at Unicode
 spaces and dropped their rules

---
 script/train/filter-rule-table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/train/filter-rule-table.py b/script/train/filter-rule-table.py
index a9581bd..2566d37 100755
--- a/script/train/filter-rule-table.py
+++ b/script/train/filter-rule-table.py
@@ -24,6 +24,7 @@
 
 #import optparse
 import argparse
+import re
 import sys
 
 class NGram(tuple):
@@ -55,7 +56,8 @@ def main():
     N = 10
     inputSentences = []
     for line in open(args.src):
-        inputSentences.append(line.split())
+        # Other Unicode spaces can be part of words
+        inputSentences.append([x for x in re.split('[ \t\r\n]+', line) if x])
     if args.format == 'guess':
         args.format = guessFormat(inputSentences)
     if args.format != 'word':
-- 
2.43.0


From fba260b6c1d0af088ab1af8d9330a61355b36423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 085/105] fix: filter-rule-table.py failed when the first line
 of the input was empty

---
 script/train/filter-rule-table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/script/train/filter-rule-table.py b/script/train/filter-rule-table.py
index 2566d37..8406f76 100755
--- a/script/train/filter-rule-table.py
+++ b/script/train/filter-rule-table.py
@@ -223,9 +223,11 @@ def enumerateIndexSeqs(ngramMaps, sentenceIndex, minFirstIndex):
             yield [index] + seq
 
 def guessFormat(inputSentences):
-    if inputSentences[0] == ['sentence', '1', ':']:
+    # The first lines may be empty
+    first = next((x for x in inputSentences if x), [''])
+    if first == ['sentence', '1', ':']:
         return 'egret'
-    elif inputSentences[0][0][0] == '(':
+    elif first[0].startswith('('):
         return 'penn'
     else:
         return 'word'
-- 
2.43.0


From 4d2b923e97ce09f5219a9d93955618b053192d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 086/105] fix: AutoProbing::Insert counts its entries so the
 table grows before it is full

---
 src/kenlm/util/probing_hash_table.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kenlm/util/probing_hash_table.hh b/src/kenlm/util/probing_hash_table.hh
index ea228dd..c742aa0 100644
--- a/src/kenlm/util/probing_hash_table.hh
+++ b/src/kenlm/util/probing_hash_table.hh
@@ -278,6 +278,7 @@ template <class EntryT, class HashT, class EqualT = std::equal_to<typename Entry
     // Assumes that the key is unique.  Multiple insertions won't cause a failure, just inconsistent lookup.
     template <class T> MutableIterator Insert(const T &t) {
       DoubleIfNeeded();
+      ++backend_.entries_;
       return backend_.UncheckedInsert(t);
     }
 
-- 
2.43.0


From 32924f206014d04bef153638f3b4eb5daedf278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 087/105] fix: AutoProbing with an initial size of zero does
 not double at every insertion

---
 src/kenlm/util/probing_hash_table.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kenlm/util/probing_hash_table.hh b/src/kenlm/util/probing_hash_table.hh
index c742aa0..ee98149 100644
--- a/src/kenlm/util/probing_hash_table.hh
+++ b/src/kenlm/util/probing_hash_table.hh
@@ -270,8 +270,9 @@ template <class EntryT, class HashT, class EqualT = std::equal_to<typename Entry
     typedef EqualT Equal;
 
     AutoProbing(std::size_t initial_size = 10, const Key &invalid = Key(), const Hash &hash_func = Hash(), const Equal &equal_func = Equal()) :
-      allocated_(Backend::Size(initial_size, 1.5)), mem_(util::MallocOrThrow(allocated_)), backend_(mem_.get(), allocated_, invalid, hash_func, equal_func) {
-      threshold_ = initial_size * 1.2;
+      allocated_(Backend::Size(std::max<std::size_t>(initial_size, 1), 1.5)), mem_(util::MallocOrThrow(allocated_)), backend_(mem_.get(), allocated_, invalid, hash_func, equal_func) {
+      // At least 1: doubling a threshold of zero would never raise it.
+      threshold_ = std::max<std::size_t>(initial_size * 1.2, 1);
       Clear();
     }
 
-- 
2.43.0


From 523ee151942a9ed3e4a75edbceaa46749f555172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 088/105] fix: FilePiece::get does not report end of file
 before the last mapped piece

---
 src/kenlm/util/file_piece.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kenlm/util/file_piece.hh b/src/kenlm/util/file_piece.hh
index 5495ddc..3baa7fd 100644
--- a/src/kenlm/util/file_piece.hh
+++ b/src/kenlm/util/file_piece.hh
@@ -45,7 +45,8 @@ class FilePiece {
     char get() {
       if (position_ == position_end_) {
         Shift();
-        if (at_end_) throw EndOfFileException();
+        // at_end_ is already set when the last piece of a file was mapped.
+        if (position_ == position_end_) throw EndOfFileException();
       }
       return *(position_++);
     }
-- 
2.43.0


From b4c24c0d7a28c8d66fcae74e0b6e19798d51a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 089/105] fix: FilePiece::Offset is right after the read buffer
 moved or mapping failed

---
 src/kenlm/util/file_piece.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kenlm/util/file_piece.cc b/src/kenlm/util/file_piece.cc
index 4aaa250..40cf282 100644
--- a/src/kenlm/util/file_piece.cc
+++ b/src/kenlm/util/file_piece.cc
@@ -251,6 +251,7 @@ void FilePiece::MMapShift(uint64_t desired_begin) {
     }
     // The mmap was scheduled to end the file, but now we're going to read it.  
     at_end_ = false;
+    mapped_offset_ = desired_begin;
     TransitionToRead();
     return;
   }
@@ -302,6 +303,7 @@ void FilePiece::ReadShift() {
       position_end_ = position_ + valid_length;
     } else {
       std::size_t moving = position_end_ - position_;
+      mapped_offset_ += position_ - data_.begin();
       memmove(data_.get(), position_, moving);
       position_ = data_.begin();
       position_end_ = position_ + moving;
-- 
2.43.0


From 7bc764841615d9be814c3b7f7bbebc2582f245a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 090/105] fix: FakeOFStream writes a string as long as its
 buffer

---
 src/kenlm/util/fake_ofstream.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kenlm/util/fake_ofstream.hh b/src/kenlm/util/fake_ofstream.hh
index 987fa80..4bbb041 100644
--- a/src/kenlm/util/fake_ofstream.hh
+++ b/src/kenlm/util/fake_ofstream.hh
@@ -50,7 +50,7 @@ class FakeOFStream {
     }
 
     FakeOFStream &operator<<(StringPiece str) {
-      if (str.size() > buffer_size_) {
+      if (str.size() >= buffer_size_) {
         Flush();
         util::WriteOrThrow(fd_, str.data(), str.size());
       } else {
-- 
2.43.0


From 0412f03c699ba80ffc32a3d5bb86548863c84345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 091/105] fix: InputFileStream reports read errors and
 truncated gzip files

---
 src/lib/input-file-stream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/input-file-stream.cc b/src/lib/input-file-stream.cc
index b1625fa..0ad6032 100644
--- a/src/lib/input-file-stream.cc
+++ b/src/lib/input-file-stream.cc
@@ -64,6 +64,8 @@ InputFileStream::InputFileStream(std::string filePath)
       m_streambuf = fb;
     }
     this->init(m_streambuf);
+    // Report read errors and truncated archives instead of ending the input early
+    this->exceptions(std::ios::badbit);
 }
 
 InputFileStream::~InputFileStream()
-- 
2.43.0


From 0d6cc5ec1dc241ff619172a4a9fd96f0b26c7525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 092/105] fix: lmplz counts the last n-grams by their adjusted
 counts when estimating discounts

---
 src/kenlm/lm/builder/adjust_counts.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kenlm/lm/builder/adjust_counts.cc b/src/kenlm/lm/builder/adjust_counts.cc
index 03ccbb9..9a9dddb 100644
--- a/src/kenlm/lm/builder/adjust_counts.cc
+++ b/src/kenlm/lm/builder/adjust_counts.cc
@@ -336,7 +336,7 @@ void AdjustCounts::Run(const util::stream::ChainPositions &positions) {
       }
     }
       
-    stats.Add(s - streams.begin(), lower_count, (*s)->IsMarked());
+    stats.Add(s - streams.begin(), (*s)->UnmarkedCount(), (*s)->IsMarked());
     ++*s;
   }
   // Poison everyone!  Except the N-grams which were already poisoned by the input.
-- 
2.43.0


From 8803acbc5cdad164ccd31a061eae8edbbc162242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 093/105] fix: lmplz does not prune the end of sentence

---
 src/kenlm/lm/builder/adjust_counts.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kenlm/lm/builder/adjust_counts.cc b/src/kenlm/lm/builder/adjust_counts.cc
index 9a9dddb..638dc19 100644
--- a/src/kenlm/lm/builder/adjust_counts.cc
+++ b/src/kenlm/lm/builder/adjust_counts.cc
@@ -269,7 +269,8 @@ void AdjustCounts::Run(const util::stream::ChainPositions &positions) {
     // STEP 1: Output all the n-grams that changed.
     for (; lower_valid >= &streams[same]; --lower_valid) {
       uint64_t order_minus_1 = lower_valid - streams_begin;
-      if(actual_counts[order_minus_1] <= prune_thresholds_[order_minus_1])
+      // Do not prune </s> (nor <unk> or <s>).
+      if(actual_counts[order_minus_1] <= prune_thresholds_[order_minus_1] && (order_minus_1 || *(*lower_valid)->begin() > kEOS))
         (*lower_valid)->Mark();
       
       if(!prune_words_.empty()) {
@@ -324,7 +325,7 @@ void AdjustCounts::Run(const util::stream::ChainPositions &positions) {
   // the last n-grams.
   for (NGramStream *s = streams.begin(); s <= lower_valid; ++s) {
     uint64_t lower_count = actual_counts[(*s)->Order() - 1];
-    if(lower_count <= prune_thresholds_[(*s)->Order() - 1])
+    if(lower_count <= prune_thresholds_[(*s)->Order() - 1] && ((*s)->Order() > 1 || *(*s)->begin() > kEOS))
       (*s)->Mark();
       
     if(!prune_words_.empty()) {
-- 
2.43.0


From e18b9a8ad71ec2112a2a21496774f2a2d9fdbbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 094/105] fix: lmplz does not mark memory after its last n-gram
 when pruning

---
 src/kenlm/lm/builder/adjust_counts.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kenlm/lm/builder/adjust_counts.cc b/src/kenlm/lm/builder/adjust_counts.cc
index 638dc19..fb3dd80 100644
--- a/src/kenlm/lm/builder/adjust_counts.cc
+++ b/src/kenlm/lm/builder/adjust_counts.cc
@@ -150,7 +150,9 @@ class CollapseStream {
       if (current_.Base() == block_base + block_->ValidSize()) {
         block_->SetValidSize(copy_from_ + current_.TotalSize() - block_base);
         ++block_;
+        // This also marks the first n-gram of the block, if there is one.
         StartBlock();
+        return *this;
       }
       
       // Mark highest order n-grams for later pruning
-- 
2.43.0


From d806c898b221621803c9c2e53cf75af3e019f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:43 +0000
Subject: [PATCH 095/105] fix: mert-travatar.pl overlooked new weights when
 testing for convergence

---
 script/mert/mert-travatar.pl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/mert/mert-travatar.pl b/script/mert/mert-travatar.pl
index 80116bd..c71abd9 100755
--- a/script/mert/mert-travatar.pl
+++ b/script/mert/mert-travatar.pl
@@ -152,7 +152,9 @@ foreach $iter ($iter_start .. $MAX_ITERS) {
     my %wprev = load_weights("$prev.ini");
     my %wnext = load_weights("$next.ini");
     my $diff = 0;
-    for(keys %wprev) { $diff += abs($wprev{$_} - $wnext{$_}); }
+    # (weights of zero are not listed)
+    my %wall = (%wprev, %wnext);
+    for(keys %wall) { $diff += abs($wprev{$_} - $wnext{$_}); }
     last if($diff < $MIN_DIFF);
 }
 
-- 
2.43.0


From b61d66c769d968b91ebb9b55b006580f074353ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:43 +0000
Subject: [PATCH 096/105] fix: ja-dep2cfg.pl moved punctuation right of the
 head behind the children that follow it

---
 script/tree/ja-dep2cfg.pl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/script/tree/ja-dep2cfg.pl b/script/tree/ja-dep2cfg.pl
index 82f5b7d..e2bcf4f 100755
--- a/script/tree/ja-dep2cfg.pl
+++ b/script/tree/ja-dep2cfg.pl
@@ -47,10 +47,12 @@ sub buildcfg {
     if($BINARIZE) {
         # Traverse left->right for children that fall on the right hand side
         # And then right->left for children that fall on the left hand side
-        # Then, finally, traverse right-hand-side punctuation
+        # Then, finally, traverse right-hand-side punctuation (unless other
+        # children follow it, as the words must stay in order)
+        my $last = max(-1, grep { $tree->[$_]->[3] !~ /記号/ } @child);
         @child = sort { 
-            my $aa = ($a < $root ? 1e4 - $a : ($tree->[$a]->[3] =~ /記号/ ? 2e4 + $a : $a));
-            my $bb = ($b < $root ? 1e4 - $b : ($tree->[$b]->[3] =~ /記号/ ? 2e4 + $b : $b));
+            my $aa = ($a < $root ? 1e4 - $a : ($a > $last ? 2e4 + $a : $a));
+            my $bb = ($b < $root ? 1e4 - $b : ($b > $last ? 2e4 + $b : $b));
             $aa <=> $bb } @child;
         # print "root=$root\tchild=@child\n";
         # Build the phrase constituents
-- 
2.43.0


From fea8812783ac68c3d5285a132240e262e0d09917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:43 +0000
Subject: [PATCH 097/105] fix: trace2parse.pl -side trg failed on rules with
 target labels

---
 script/tree/trace2parse.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/tree/trace2parse.pl b/script/tree/trace2parse.pl
index 5d37dca..ca89634 100755
--- a/script/tree/trace2parse.pl
+++ b/script/tree/trace2parse.pl
@@ -55,6 +55,7 @@ sub make_trg {
     chomp;
     my ($sent, $span, $src, $trg, $feat) = split(/ \|\|\| /);
     return "" if not $src;
+    $trg =~ s/ @ .*//g;
     my @arr = split(/ +/, $trg);
     my $ret;
     my (@retarr, @unfilled);
-- 
2.43.0


From 70cff7c00b5610e487003abc13917537fb1e7917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:43 +0000
Subject: [PATCH 098/105] fix: train-travatar.pl ignored -symmetrize

---
 script/train/train-travatar.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 4bca60d..3dfbd52 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -233,7 +233,7 @@ if(not $ALIGN_FILE) {
         my $GIZA_TRGSRC_CMD = "$GIZA -CoocurrenceFile $TSPREF.cooc -c $TSPREF.snt -m1 5 -m2 0 -m3 3 -m4 3 -model1dumpfrequency 1 -model4smoothfactor 0.4 -nodumps 1 -nsmooth 4 -o $TSPREF.giza -onlyaldumps 1 -p0 0.999 -s $TRG_VCB -t $SRC_VCB";
         run_two($GIZA_SRCTRG_CMD, $GIZA_TRGSRC_CMD);
         # Symmetrize the alignments
-        safesystem("$TRAVATAR_DIR/script/train/symmetrize.pl $WORK_DIR/align/src-trg.giza.A3.final $WORK_DIR/align/trg-src.giza.A3.final > $ALIGN_FILE") or die;
+        safesystem("$TRAVATAR_DIR/script/train/symmetrize.pl --sym=$SYMMETRIZE $WORK_DIR/align/src-trg.giza.A3.final $WORK_DIR/align/trg-src.giza.A3.final > $ALIGN_FILE") or die;
     } else {
         die "Unknown alignment type $ALIGN";
     }
-- 
2.43.0


From b81aad8d12e3564c3d18400a5949427979a5a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:43 +0000
Subject: [PATCH 099/105] fix: train-travatar.pl went on when a program in a
 pipeline or in the second thread failed

---
 script/train/train-travatar.pl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 3dfbd52..77f7b77 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -336,7 +336,8 @@ if(not $CONFIG_FILE) {
 # Adapted from Moses's train-model.perl
 sub safesystem {
   print STDERR "Executing: @_\n";
-  system(@_);
+  # Fail if any of the programs in a pipeline fails
+  system("bash", "-c", "set -o pipefail; @_");
   if ($? == -1) {
       print STDERR "ERROR: Failed to execute: @_\n  $!\n";
       exit(1);
@@ -406,6 +407,7 @@ sub run_two {
         } else {
             safesystem("$CMD2") or die;
             waitpid($pid, 0);
+            die "ERROR: Failed: $CMD1\n" if $?;
         }
     } else {
         safesystem("$CMD1") or die;
-- 
2.43.0


From 361e64d3187d5a75e302ec134e63c7ba5d2c84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:43 +0000
Subject: [PATCH 100/105] fix: train-travatar.pl -resume used an unfinished
 lexicon

---
 script/train/train-travatar.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 77f7b77..9628737 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -449,7 +449,7 @@ sub set_default_files {
         'SRC_WORDS' => $DEFAULT_FILE{'ALIGN_FILE'},
         'TRG_WORDS' => $DEFAULT_FILE{'ALIGN_FILE'},
         'ALIGN_FILE' => $DEFAULT_FILE{'LEX_SRCTRG'},
-        'LEX_SRCTRG' => $DEFAULT_FILE{'LEX_TRGSRC'},
+        'LEX_SRCTRG' => $DEFAULT_FILE{'EXTRACT_FILE'},
         'LEX_TRGSRC' => $DEFAULT_FILE{'EXTRACT_FILE'},
         'EXTRACT_FILE' => $DEFAULT_FILE{'RT_SRCTRG'},
         'RT_SRCTRG' => $DEFAULT_FILE{'TM_FILE'},
-- 
2.43.0


From a876830b892143349017cc4002bbdb38c2481233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:43 +0000
Subject: [PATCH 101/105] fix: train-travatar.pl -resume discarded the files
 given on the command line

---
 script/train/train-travatar.pl | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 9628737..74cc617 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -468,14 +468,14 @@ sub get_ready_file {
 }
 
 sub set_processed {
-    $SRC_WORDS    = get_ready_file('SRC_WORDS');
-    $TRG_WORDS    = get_ready_file('TRG_WORDS');
-    $ALIGN_FILE   = get_ready_file('ALIGN_FILE');
-    $LEX_SRCTRG   = get_ready_file('LEX_SRCTRG');
-    $LEX_TRGSRC   = get_ready_file('LEX_TRGSRC');
-    $EXTRACT_FILE = get_ready_file('EXTRACT_FILE');
-    $RT_SRCTRG    = get_ready_file('RT_SRCTRG');
-    $RT_TRGSRC    = get_ready_file('RT_TRGSRC');
-    $TM_FILE      = get_ready_file('TM_FILE');
+    $SRC_WORDS    ||= get_ready_file('SRC_WORDS');
+    $TRG_WORDS    ||= get_ready_file('TRG_WORDS');
+    $ALIGN_FILE   ||= get_ready_file('ALIGN_FILE');
+    $LEX_SRCTRG   ||= get_ready_file('LEX_SRCTRG');
+    $LEX_TRGSRC   ||= get_ready_file('LEX_TRGSRC');
+    $EXTRACT_FILE ||= get_ready_file('EXTRACT_FILE');
+    $RT_SRCTRG    ||= get_ready_file('RT_SRCTRG');
+    $RT_TRGSRC    ||= get_ready_file('RT_TRGSRC');
+    $TM_FILE      ||= get_ready_file('TM_FILE');
 }
 
-- 
2.43.0


From 72c5c5ad8ea19beb63933b2082b8426838a9f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 102/105] fix: truecase.pl and train-truecaser.pl cut the last
 letter of a text without final newline

---
 script/recaser/train-truecaser.pl | 2 +-
 script/recaser/truecase.pl        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/recaser/train-truecaser.pl b/script/recaser/train-truecaser.pl
index e81a975..ac07094 100755
--- a/script/recaser/train-truecaser.pl
+++ b/script/recaser/train-truecaser.pl
@@ -24,7 +24,7 @@ my %DELAYED_SENTENCE_START = ("("=>1,"["=>1,"\""=>1,"'"=>1,"&apos;"=>1,"&quot;"=
 open(CORPUS,$CORPUS) || die("ERROR: could not open '$CORPUS'");
 binmode(CORPUS, ":utf8");
 while(<CORPUS>) {
-  chop;
+  chomp;
   my ($WORD,$MARKUP) = split_xml($_);
   my $start = 0;
   while($start<=$#$WORD && defined($DELAYED_SENTENCE_START{$$WORD[$start]})) { $start++; }
diff --git a/script/recaser/truecase.pl b/script/recaser/truecase.pl
index e135981..7a7e653 100755
--- a/script/recaser/truecase.pl
+++ b/script/recaser/truecase.pl
@@ -32,7 +32,7 @@ my %SENTENCE_END = ("."=>1,":"=>1,"?"=>1,"!"=>1);
 my %DELAYED_SENTENCE_START = ("("=>1,"["=>1,"\""=>1,"'"=>1,"&apos;"=>1,"&quot;"=>1,"&#91;"=>1,"&#93;"=>1);
 
 while(<STDIN>) {
-  chop;
+  chomp;
   my ($WORD,$MARKUP) = split_xml($_);
   my $sentence_start = 1;
   for(my $i=0;$i<=$#$WORD;$i++) {
-- 
2.43.0


From 4e678746ee07ecc2c3c4ed90289052ebc016db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 103/105] fix: preprocess.pl lost lines when interleaved parts
 had different lengths after cleaning

---
 script/preprocess/preprocess.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index 7557009..1b83699 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -503,11 +503,11 @@ sub cat_files {
             $fh
         } @in;
         open FILE0, ">:utf8", $out or die "Couldn't open $out";
-        my $done = @fh;
-        while($done == @fh) {
+        my $done = 1;
+        while($done) {
             $done = 0;
             foreach my $fhin (@fh) {
-                last if not defined ($_ = <$fhin>);
+                next if not defined ($_ = <$fhin>);
                 print FILE0;
                 $done++;
             }
-- 
2.43.0


From 471e92c869b70e71ab6a7d512d379b9f9a0eada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 104/105] fix: preprocess.pl died on parts without lines when
 parsing forests

---
 script/preprocess/preprocess.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index 1b83699..ff9dedf 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -303,7 +303,7 @@ sub run_forest_parsing {
     -e "$PREF/for" or mkdir "$PREF/for";
     foreach my $i ("", map{".$_"} @suffixes) {
         safesystem("$TRAVATAR_DIR/script/tree/replace-failed-parse.pl -format egret $PREF/treefor/$lang$i $PREF/egretfor/$lang$i $SPLIT_CMD > $PREF/for/$lang$i") if not -e "$PREF/for/$lang$i";
-        die "Combining forests failed on en$i" if( &$file_len_func("$PREF/for/$lang$i") == 0);
+        die "Combining forests failed on $lang$i" if( &$file_len_func("$PREF/for/$lang$i") == 0 and &$file_len_func("$PREF/clean/$lang$i") != 0);
     }
 
     # Combine and lowercase the forest
-- 
2.43.0


From 5d186e27969cd7fa16786f695452a41540fe72d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 105/105] fix: preprocess.pl mixed up the lines of forests when
 parts are interleaved

---
 script/preprocess/preprocess.pl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index ff9dedf..91d09af 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -503,14 +503,22 @@ sub cat_files {
             $fh
         } @in;
         open FILE0, ">:utf8", $out or die "Couldn't open $out";
-        my $done = 1;
+        # Forests have several lines each, the first of which starts with "sentence"
+        my $is_forest = ($out =~ m!/(treefor|egretfor|forlow|fortrue)/[^/]*$!);
+        local $/ = "\nsentence " if $is_forest;
+        my ($done, $first) = (1, 1);
         while($done) {
             $done = 0;
             foreach my $fhin (@fh) {
                 next if not defined ($_ = <$fhin>);
+                if($is_forest) {
+                    s/\nsentence $/\n/;
+                    $_ = "sentence $_" if not $first;
+                }
                 print FILE0;
                 $done++;
             }
+            $first = 0;
         }
         close FILE0;
     } else {
-- 
2.43.0

