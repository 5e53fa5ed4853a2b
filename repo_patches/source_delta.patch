From 209df30d094ded89f002d414260275b096d03f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 01/45] fix: apply nfirst and ndrop to the vocabulary when
 shrinking

The vocabulary was never cleared, since set_oov() with the current OOV word
is a no-op, so -f and -d kept every word. Words seen exactly ndrop times are
not seen less than ndrop times, and the scan may not run past the table.
---
 src/NgramCounts_tmpl.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 4ba6977..09e2d23 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -210,12 +210,15 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   /* create a backwards mapping */
   std::vector<int> backwards(wordtable.size(), 0);
   int i;
-  for (i = 1; (i <= nfirst && wordtable[i].count > ndrop); i++)
+  for (i = 1; i < wordtable.size() && i <= nfirst &&
+              wordtable[i].count >= ndrop;
+       i++)
     backwards[wordtable[i].oldidx] = i;
   nfirst = i - 1;
 
   /* Redo the vocabulary */
-  vocab->set_oov(wordtable[0].wstring); // clears the current vocabulary
+  vocab->clear_words();
+  vocab->add_word(wordtable[0].wstring); // the OOV word
   for (i = 1; i <= nfirst; i++) {
     vocab->add_word(wordtable[i].wstring);
   }
-- 
2.43.0


From dc40c8b7a855839e50e6377032cbf63c5649baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 02/45] fix: do not ignore ndrop with a small vocabulary

---
 src/InterKn_tmpl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 8677c92..94dd666 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -752,7 +752,7 @@ void InterKn_t<KT, CT>::constructor_helper(
         if (!this->KT_is_short((KT *)NULL))
           nc_tmp.shrink(ndrop, nfirst);
         else {
-          nc_tmp.shrink(0, std::min(65534, nfirst));
+          nc_tmp.shrink(ndrop, std::min(65534, nfirst));
         }
         nc_tmp.vocab->copy_vocab_to(this->vocab);
         datain.open(this->m_data_name, "r");
-- 
2.43.0


From d4d4cf0db09ca86fe4137ca2e447943be934e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 03/45] fix: leave the back-off counts alone when no sentence
 start was seen

With three discounts the class index was -1 (out of bounds), with one the
number of continuations went off by one.
---
 src/InterKn_tmpl.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 94dd666..a9952a6 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -199,6 +199,8 @@ template <typename BOT>
 void InterKn_int_disc<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value == 0)
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
@@ -212,6 +214,8 @@ template <typename BOT>
 void InterKn_int_disc3<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value == 0)
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
-- 
2.43.0


From 978f15ad1bf37a07e79f01e6a717c0b3e18bca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 04/45] fix: keep positive back-off weights in HashGram

They are legal, and interpolating models creates them; dropping them on
reading and writing changed the probabilities of everything behind them.
---
 src/HashGram_tmpl.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index cc697a8..a3f3910 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -41,7 +41,7 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
     if (log_prob > MINLOGPROB) {
       probs[order]->setvalue(&gram[0], log_prob);
     }
-    if (back_off < 0) {
+    if (back_off != 0) {
       backoffs[order]->setvalue(&gram[0], back_off);
     }
   }
@@ -58,7 +58,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     float logprob, bo;
     backoffs[o]->stepthrough(true, &gram[0], &logprob);
     while (backoffs[o]->stepthrough(false, &gram[0], &bo)) {
-      if (bo >= 0.0)
+      if (bo == 0)
         continue;
       FindEntry(probs[o]->m, (byte *)(&gram[0]), 1);
     }
@@ -70,7 +70,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (m_print_zerograms || logprob > MINLOGPROB || bo < 0)
+      if (m_print_zerograms || logprob > MINLOGPROB || bo != 0)
         num_grams[o]++;
     }
   }
@@ -90,13 +90,13 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo >= 0))
+      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
         continue;
       fprintf(out, "%.4f", logprob);
       fprintf(out, "%s%s", field_separator.c_str(), word(gram[0]).c_str());
       for (int i = 1; i < o; i++)
         fprintf(out, " %s", word(gram[i]).c_str());
-      if (bo < 0)
+      if (bo != 0)
         fprintf(out, "%s%.4f", field_separator.c_str(), bo);
       fprintf(out, "\n");
     }
-- 
2.43.0


From bc25566db25cba39ef4f170d8568ff9a664c6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 05/45] fix: refuse n-grams whose words have no unigram

---
 src/TreeGram.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index c602fab..c2080f0 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -77,6 +77,19 @@ void TreeGram::check_order(const Gram &gram, bool add_missing_unigrams) {
     add_gram(g, MINLOGPROB, 0);
   }
 
+  // Words of longer grams must have a unigram, their indices would point to
+  // the nodes of other grams.
+  for (int i = 0; gram.size() > 1 && i < gram.size(); i++) {
+    if (gram[i] >= m_order_count[0]) {
+      fprintf(stderr,
+              "TreeGram::check_order(): "
+              "no 1-gram for word %s\n",
+              word(gram[i]).c_str());
+      print_gram(stderr, gram);
+      throw ReadError();
+    }
+  }
+
   // With the same order, the grams must inserted in sorted order.
   if (gram.size() == m_last_gram.size()) {
     int i;
-- 
2.43.0


From dfa3efbef76c9dc97bb738d1b14469d52f945603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 06/45] fix: count words with unknown morphs once

---
 src/PerplexityFuncs.cc | 14 +++++++-------
 src/PerplexityFuncs.hh |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index f2629f5..d764053 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -181,7 +181,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
 
   int idx = m_lm->word_index(word);
   if (m_cur_init_hist > 0) {
-    if (strncmp("<s>", word, 3) && is_wb(idx)) {
+    if (strncmp("<s>", word, 3) && is_wb(idx, word)) {
       m_num_pwords++;
     }
     m_cur_init_hist--;
@@ -199,9 +199,10 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
     if (m_print_unk_warn)
       fprintf(stderr, "Unknown token %s\n", word);
     m_num_tunks++;
-    if (m_wb_type == MB_LISTED && !is_mb(word)) {
+    if (m_skip_unk_prob && m_wb_type == MB_LISTED && !is_mb(word)) {
+      // The dropped token ends the word
       m_num_unks++;
-      cur_word_lp = m_cw_lpsum;
+      m_unkflag = 0;
       m_cw_lpsum = 0.0;
     } else if (m_wb_type == EVERYTIME) {
       m_num_unks++;
@@ -236,7 +237,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
 
   m_num_ptokens++;
   m_cw_lpsum += lp;
-  if (is_wb(idx)) {
+  if (is_wb(idx, word)) {
     if (m_unkflag) {
       m_unkflag = 0;
       m_num_unks++;
@@ -270,7 +271,7 @@ int Perplexity::get_hitorder(int i) {
   return ngram_hits[i];
 }
 
-bool Perplexity::is_wb(int idx) {
+bool Perplexity::is_wb(int idx, const char *word) {
   if (m_wb_type == EVERYTIME)
     return (true);
 
@@ -279,8 +280,7 @@ bool Perplexity::is_wb(int idx) {
     return (true);
 
   if (m_wb_type == MB_LISTED) {
-    const std::string &w = m_lm->word(idx);
-    bool mb = is_mb(w);
+    bool mb = is_mb(word);
     if (mb) {
       return (false); // there is morph boundary preceeding/following the token
     } else {
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index 1c89fd2..6a635b1 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -87,7 +87,7 @@ private:
   char *m_tmpstring;
   int m_tmpstring_length;
   wb_type m_wb_type;
-  bool is_wb(int idx);
+  bool is_wb(int idx, const char *word);
   bool is_mb(std::string w);
   bool m_print_unk_warn;
   bool m_skip_unk_prob;
-- 
2.43.0


From 21c2f39d3aa576b6dc8d405d9ee717f54e98c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 07/45] fix: weigh interpolated HashGrams as documented

---
 app/perplexity.cc      | 5 +++--
 src/PerplexityFuncs.cc | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/perplexity.cc b/app/perplexity.cc
index 73ac2be..70810b7 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -115,10 +115,11 @@ int main(int argc, char *argv[]) {
     if (config["freegram"].specified) {
       lm.reset(new Perplexity(lm_name, lm_type, ccs_name, wb_name, mb_name,
                               unk_symbol, true, skip_unks));
-      lm->set_interpolation(config["interpolate"].get_str());
+      // The alpha is the weight of the main model
       if (config["inter_coeff"].specified) {
-        lm->set_alpha(config["inter_coeff"].get_double());
+        lm->set_alpha(1.0 - config["inter_coeff"].get_double());
       }
+      lm->set_interpolation(config["interpolate"].get_str());
     } else {
       // Interpolate the new way, using InterTreeGram
       knows_hitrates = false;
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index d764053..8c628db 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -446,6 +446,7 @@ void Perplexity::set_interpolation(std::string lm_name) {
     m_lm2 = m_lm;
     m_lm = tmp_lm;
     m_alpha = 1 - m_alpha;
+    ngram_hits.resize(m_lm->order() + 1, 0);
   }
 
   assert(m_lm->num_words() == m_lm2->num_words());
-- 
2.43.0


From 95e467d1cb5a336e8cb039321700612f3492a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 08/45] fix: room for the tokens in sentence_logprob

---
 src/PerplexityFuncs.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 8c628db..bb8129e 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -70,6 +70,8 @@ Perplexity::Perplexity(const std::string lm_name, const int type,
 }
 
 void Perplexity::init_variables() {
+  m_tmpstring = NULL;
+  m_tmpstring_length = 0;
   m_use_unk = 0;
   m_use_ccs = 0;
   m_num_unks = 0;
@@ -154,13 +156,14 @@ void Perplexity::load_mbs(const std::string fname,
 float Perplexity::sentence_logprob(const char *sentence_in) {
   float lpsum = 0.0, foo;
   char *sentence = strdup(sentence_in);
-  char *cptr = strtok(sentence, " ");
+  int length = strlen(sentence) + 1;
 
-  if (strlen(sentence) > m_tmpstring_length) {
-    m_tmpstring_length = strlen(sentence);
+  if (length > m_tmpstring_length) {
+    m_tmpstring_length = length;
     m_tmpstring =
         (char *)realloc(m_tmpstring, m_tmpstring_length * sizeof(char));
   }
+  char *cptr = strtok(sentence, " ");
 
   while (cptr) {
     sscanf(cptr, "%s", m_tmpstring);
-- 
2.43.0


From 2b6ba6f1126cae6080f8de08b4bbbf614ffd75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 09/45] fix: keep the vocabulary of an interpolated model with
 another unk symbol

---
 app/perplexity.cc    | 3 ++-
 src/InterTreeGram.cc | 4 +++-
 src/InterTreeGram.hh | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/app/perplexity.cc b/app/perplexity.cc
index 70810b7..14b2ef5 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -134,7 +134,8 @@ int main(int argc, char *argv[]) {
       }
       coeffs.push_back(1.0 - coeff);
       coeffs.push_back(coeff);
-      std::shared_ptr<NGram> itg(new InterTreeGram(lm_names, coeffs));
+      std::shared_ptr<NGram> itg(new InterTreeGram(
+          lm_names, coeffs, unk_symbol.length() ? unk_symbol : "<UNK>"));
       lm.reset(new Perplexity(itg, ccs_name, wb_name, mb_name, unk_symbol,
                               skip_unks));
     }
diff --git a/src/InterTreeGram.cc b/src/InterTreeGram.cc
index 2a12349..f031f20 100644
--- a/src/InterTreeGram.cc
+++ b/src/InterTreeGram.cc
@@ -4,7 +4,8 @@
 #include "io.hh"
 
 InterTreeGram::InterTreeGram(std::vector<std::string> lm_names,
-                             std::vector<float> coeffs) {
+                             std::vector<float> coeffs,
+                             const std::string &unk_symbol) {
   if (lm_names.size() != coeffs.size()) {
     fprintf(stderr, "InterTreeGram::InterTreeGram: There must be as many "
                     "interpolation coeffs as there are LMs. Exit.\n");
@@ -25,6 +26,7 @@ InterTreeGram::InterTreeGram(std::vector<std::string> lm_names,
     exit(1);
   }
   m_coeffs = coeffs;
+  set_oov(unk_symbol);
 
   // Combine vocab from all models
   for (std::vector<std::string>::iterator it = lm_names.begin();
diff --git a/src/InterTreeGram.hh b/src/InterTreeGram.hh
index c6f4311..fedc29f 100644
--- a/src/InterTreeGram.hh
+++ b/src/InterTreeGram.hh
@@ -13,7 +13,8 @@ public:
 
 class InterTreeGram : public NGram {
 public:
-  InterTreeGram(std::vector<std::string>, std::vector<float>);
+  InterTreeGram(std::vector<std::string>, std::vector<float>,
+                const std::string &unk_symbol = "<UNK>");
   ~InterTreeGram();
 
   float log_prob(const Gram &gram);
-- 
2.43.0


From 47db3fc2bfee84c5c9a706363e15a63b25e20df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:10 +0000
Subject: [PATCH 10/45] fix: add missing prefixes with their back-off
 probability

---
 src/HashGram_tmpl.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index a3f3910..dda2dca 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -365,6 +365,16 @@ template <typename KT> void HashGram_t<KT>::add_zeroprob_grams() {
 
     probs[o]->stepthrough(true, &gram[0], &gram_logprob);
     while (probs[o]->stepthrough(false, &gram[0], &gram_logprob)) {
+      if (m_type == BACKOFF &&
+          probs[o - 1]->getvalue(&gram[0]) <= MINLOGPROB) {
+        // The prefix must get the probability that it has through back-off
+        std::vector<KT> prefix(gram.begin(), gram.end() - 1);
+        const float lp = log_prob_bo(prefix);
+        if (lp > MINLOGPROB) {
+          probs[o - 1]->setvalue(&gram[0], lp);
+          continue;
+        }
+      }
       // Don't delete even if default value
       probs[o - 1]->increment_wo_del(&gram[0], inc);
     }
-- 
2.43.0


From e48219019ebc14cd308fcd8e7556fc36e154ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 11/45] fix: let matrices created without slots grow

---
 src/sparse_matrix.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 6fa8925..5b53819 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -65,16 +65,16 @@ struct matrix *CreateMatrix(const int keysize, const indextype hashs,
   memcpy(m->default_value, def_value, m->size_of_entry);
 
   m->num_entries = 0;
-  m->datasize = hashs;
+  m->datasize = hashs > 0 ? hashs : 1; // must be able to grow
   // fprintf(stderr,"mallocing %d*%d=%d\n", (int) m->key_size, hashs, (int)
   // (m->key_size *hashs));
-  m->keys = (byte *)malloc(m->key_size * hashs);
+  m->keys = (byte *)malloc(m->key_size * m->datasize);
   check_malloc(m->keys, "keys");
-  m->data = (byte *)malloc(m->size_of_entry * hashs);
+  m->data = (byte *)malloc(m->size_of_entry * m->datasize);
   check_malloc(m->data, "data");
-  m->next = (indextype *)malloc(sizeof(indextype) * hashs);
+  m->next = (indextype *)malloc(sizeof(indextype) * m->datasize);
   check_malloc(m->next, "next pointers");
-  m->prev = (indextype *)malloc(sizeof(indextype) * hashs);
+  m->prev = (indextype *)malloc(sizeof(indextype) * m->datasize);
   check_malloc(m->prev, "prev pointers");
 
   /* Find a good hash size */
-- 
2.43.0


From 3657170a902baf04d614ab025f588b7439c8d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 12/45] fix: keep interpolated models readable

---
 src/HashGram_tmpl.hh | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index dda2dca..962d9f3 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -357,6 +357,13 @@ template <typename KT> void HashGram_t<KT>::remove_empty_grams() {
 }
 
 template <typename KT> void HashGram_t<KT>::add_zeroprob_grams() {
+  // All words but the unknown word must have a unigram
+  for (int i = 1; i < num_words(); i++) {
+    const KT word_idx = i;
+    probs[1]->increment_wo_del(&word_idx, 0.0f);
+  }
+  m_print_zerograms = true;
+
   for (int o = m_order; o >= 2; o--) {
     std::vector<KT> gram(o);
     float gram_logprob;
@@ -385,8 +392,10 @@ template <typename KT>
 void HashGram_t<KT>::normalize_and_set_bo(std::vector<KT> &prefix,
                                           float explicit_probsum,
                                           float full_bo_probsum) {
-  float new_bo =
-      safelogprob((1.0f - explicit_probsum) / (1.0f - full_bo_probsum));
+  float new_bo = MINLOGPROB;
+  // If the shorter context has nothing left, there is nothing to back off to
+  if (full_bo_probsum < 1.0f)
+    new_bo = safelogprob((1.0f - explicit_probsum) / (1.0f - full_bo_probsum));
   backoffs[prefix.size()]->setvalue(&prefix[0], new_bo);
   // fprintf(stderr, "Bo for prefix");
   // for (auto i: prefix) {
@@ -513,4 +522,6 @@ void HashGram_t<KT>::fake_interpolate(HashGram_t<KT> &other, float lambda) {
   for (int o = 1; o <= max_order; o++) {
     renormalize_backoffs(o);
   }
+  // A context may have lost its probability and have no back-off weight
+  add_zeroprob_grams();
 }
-- 
2.43.0


From dcb5798393ce2fcfdd7a21440c9285a29c10d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 13/45] fix: mix and list all n-grams when interpolating into
 one model

Entries of zero probability were removed while stepping forward through
them, so that the entry moved into the hole was never mixed; orders without
entries gave a bogus context; contexts that only have a back-off weight
were not listed.
---
 app/simpleinterpolate2arpa.cc |  3 +++
 src/HashGram_tmpl.hh          | 23 +++++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/app/simpleinterpolate2arpa.cc b/app/simpleinterpolate2arpa.cc
index d78548b..bc56d96 100644
--- a/app/simpleinterpolate2arpa.cc
+++ b/app/simpleinterpolate2arpa.cc
@@ -67,6 +67,9 @@ int main(int argc, char *argv[]) {
     cur_tot_weight += models_and_weights[i].second;
   }
 
+  // Contexts without probability and back-off weight are still needed
+  models_and_weights[0].first->add_zeroprob_grams();
+
   io::Stream out(config.arguments.at(1), "w");
   models_and_weights[0].first->write(out.file);
 }
diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 962d9f3..80c7de5 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -357,11 +357,20 @@ template <typename KT> void HashGram_t<KT>::remove_empty_grams() {
 }
 
 template <typename KT> void HashGram_t<KT>::add_zeroprob_grams() {
-  // All words but the unknown word must have a unigram
+  // All words but the unknown word must be listed
   for (int i = 1; i < num_words(); i++) {
     const KT word_idx = i;
     probs[1]->increment_wo_del(&word_idx, 0.0f);
   }
+  // So must all contexts with a back-off weight
+  for (int o = 2; o < m_order; o++) {
+    std::vector<KT> gram(o);
+    float bo;
+    backoffs[o]->stepthrough(true, &gram[0], &bo);
+    while (backoffs[o]->stepthrough(false, &gram[0], &bo)) {
+      probs[o]->increment_wo_del(&gram[0], 0.0f);
+    }
+  }
   m_print_zerograms = true;
 
   for (int o = m_order; o >= 2; o--) {
@@ -413,6 +422,8 @@ template <typename KT> void HashGram_t<KT>::renormalize_backoffs(int order) {
 
   float gram_logprob;
   float explicit_probsum = 0.0f, full_bo_probsum = 0.0f;
+  if (order > 1 && probs[order]->num_entries() == 0)
+    return;
   probs[order]->ordered_stepthrough(true, &gram[0], &gram_logprob);
   while (probs[order]->ordered_stepthrough(false, &gram[0], &gram_logprob)) {
     bool different = false;
@@ -495,9 +506,11 @@ void HashGram_t<KT>::fake_interpolate(HashGram_t<KT> &other, float lambda) {
 
   for (int o = max_order; o >= 1; o--) {
     std::vector<KT> gram(o);
-    float gram_logprob;
-    probs[o]->stepthrough(true, &gram[0], &gram_logprob);
-    while (probs[o]->stepthrough(false, &gram[0], &gram_logprob)) {
+    // Entries that get zero probability are removed, so go backwards
+    for (indextype i = probs[o]->num_entries() - 1; i >= 0; i--) {
+      const KT *const key = probs[o]->Idx2Keyp(i);
+      gram.assign(key, key + o);
+      const float gram_logprob = *(probs[o]->Idx2Valp(i));
       probs[o]->setvalue(
           &gram[0],
           safelogprob(lambda * pow(10, gram_logprob) +
@@ -522,6 +535,4 @@ void HashGram_t<KT>::fake_interpolate(HashGram_t<KT> &other, float lambda) {
   for (int o = 1; o <= max_order; o++) {
     renormalize_backoffs(o);
   }
-  // A context may have lost its probability and have no back-off weight
-  add_zeroprob_grams();
 }
-- 
2.43.0


From 7044fdf5331acad087f7de87e003f093309fe6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 14/45] fix: give both interpolated HashGrams the same unk
 symbol

---
 src/PerplexityFuncs.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index bb8129e..2d433fa 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -427,6 +427,7 @@ double Perplexity::print_results(FILE *out) {
 
 void Perplexity::set_interpolation(std::string lm_name) {
   auto tmp_lm = std::make_shared<HashGram_t<int> >();
+  tmp_lm->set_oov(m_lm->word(0));
 
   // Add all words from m_lm to tmp_lm
   std::vector<int> gram(1);
-- 
2.43.0


From 4eceae4c2832e1e57ce3a820fb7ef5d0c21df434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 15/45] fix: read models with an order without n-grams into a
 HashGram

---
 src/HashGram_tmpl.hh | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 80c7de5..8fbc34c 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -24,18 +24,16 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
   probs.resize(m_order + 1);
   backoffs.resize(m_order + 1);
 
+  // Orders without n-grams need their (empty) matrices, too
+  for (int o = 1; o <= m_order; o++) {
+    probs[o] = new sikMatrix<KT, float>(o, areader.counts[o - 1], MINLOGPROB);
+    backoffs[o] = new sikMatrix<KT, float>(o, areader.counts[o - 1], 0.0);
+  }
+
   std::vector<int> tmp_gram(1);
   float log_prob, back_off;
-  int prev_order = 0;
   while (areader.next_gram(file, line, tmp_gram, log_prob, back_off)) {
     int order = tmp_gram.size();
-    if (order > prev_order) {
-      probs[order] = new sikMatrix<KT, float>(order, areader.counts[order - 1],
-                                              MINLOGPROB);
-      backoffs[order] =
-          new sikMatrix<KT, float>(order, areader.counts[order - 1], 0.0);
-      prev_order = order;
-    }
     // Inefficiency due to abstracting ArpaReader out
     std::vector<KT> gram(tmp_gram.begin(), tmp_gram.end());
     if (log_prob > MINLOGPROB) {
-- 
2.43.0


From a252c2ebcd18c3187e7b09837fe29997573ad9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 16/45] fix: remove all default values, not every other one

---
 src/sparse_matrix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 5b53819..8ebb72f 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -496,7 +496,8 @@ void showvalues(struct matrix *m, indextype i) {
 
 void RemoveDefaultValues(struct matrix *m) {
   indextype i;
-  for (i = 0; i < m->num_entries; i++) {
+  /* Removing moves the last entry to the removed index, step backwards */
+  for (i = m->num_entries - 1; i >= 0; i--) {
     if (!memcmp(&(m->data[i * m->size_of_entry]), m->default_value,
                 m->size_of_entry))
       RemoveEntryIdx(m, i);
-- 
2.43.0


From dba66c2667309f075d5bccaad2848d7674f34b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 17/45] fix: read highest-order counts into the model's own
 vocabulary

counts2kn -Z read the vocabulary into a private one of NgramCounts, so
the model's vocabulary stayed empty.
---
 src/InterKn_tmpl.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index a9952a6..a0c96f7 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -689,6 +689,7 @@ void InterKn_t<KT, CT>::constructor_helper(
                         "match, this will not be checked.\n");
       fprintf(stderr, "Reading counts for the highest order\n");
       NgramCounts_t<KT, CT> *ng = new NgramCounts_t<KT, CT>(order, 0, hashsize);
+      ng->use_vocabulary(&this->vocab);
       ng->read(datain.file, vocabin.file);
       this->moc->UseAsCounts(ng->counts);
     } else {
-- 
2.43.0


From abc389e740cbb6f4bddd2351cc0de140604dbc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 18/45] fix: refuse a value given to an option that takes none

--flag=value was taken as the option followed by a new argument, which
could even be another option.
---
 src/conf.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conf.cc b/src/conf.cc
index 5a98143..c37d5f0 100644
--- a/src/conf.cc
+++ b/src/conf.cc
@@ -166,6 +166,10 @@ void Config::parse_aux(std::deque<std::string> &argument_queue, bool override) {
         }
 
         Option &option = options[it->second];
+        if (!option.needs_argument && equal_pos >= 0) {
+          fprintf(stderr, "option --%s takes no value\n", long_name.c_str());
+          exit(1);
+        }
         if (option.needs_argument)
           options_pending.push_back(it->second);
         else
-- 
2.43.0


From f9044d757ef8caaf3cfa77d52c304a612975e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 19/45] fix: exit with an error status when the number of
 arguments is wrong

---
 src/conf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.cc b/src/conf.cc
index c37d5f0..f099898 100644
--- a/src/conf.cc
+++ b/src/conf.cc
@@ -230,7 +230,7 @@ void Config::parse(int argc, char *argv[], int num_args, bool override) {
     fprintf(stderr, "Got %d arguments, need %d.\n", (int)arguments.size(),
             num_requested_arguments);
     fputs(help_string().c_str(), stderr);
-    exit(0);
+    exit(1);
   }
 
   check_required();
-- 
2.43.0


From 1b8ce34c77a754843bba41f1677a6a00cd6bb813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 20/45] fix: refuse integer option values that do not fit an
 int

They were silently cut to their low 32 bits.
---
 src/conf.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/conf.cc b/src/conf.cc
index f099898..3ec7e87 100644
--- a/src/conf.cc
+++ b/src/conf.cc
@@ -2,14 +2,16 @@
 #include "str.hh"
 #include <assert.h>
 #include <deque>
+#include <limits.h>
 #include <stdlib.h>
 
 namespace conf {
 
 int Option::get_int() const {
   char *endptr;
-  int return_value = strtol(value.c_str(), &endptr, 10);
-  if (endptr == value.c_str() || *endptr != 0) {
+  long return_value = strtol(value.c_str(), &endptr, 10);
+  if (endptr == value.c_str() || *endptr != 0 || return_value > INT_MAX ||
+      return_value < INT_MIN) {
     fprintf(stderr, "invalid value for option %s: %s\n", name.c_str(),
             value.c_str());
     exit(1);
-- 
2.43.0


From 12226286205c16acfbc70392fd5f3327caf7ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 21/45] fix: a quoted backslash ends the quotation

After two backslashes the next character was still taken as quoted.
---
 src/str.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/str.cc b/src/str.cc
index 981f4a1..4d006c9 100644
--- a/src/str.cc
+++ b/src/str.cc
@@ -172,10 +172,12 @@ void split_with_quotes(std::string *str, const char *delims, bool group,
       switch ((*str)[src]) {
 
       case '\\':
-        if (mode == NONE)
+        if (mode == NONE) {
           mode = BACKSLASH;
-        else
-          (*str)[tgt++] = '\\';
+          src++;
+          continue;
+        }
+        (*str)[tgt++] = '\\';
         break;
 
       case '\'':
@@ -205,7 +207,7 @@ void split_with_quotes(std::string *str, const char *delims, bool group,
         }
         break;
       }
-      if (mode == BACKSLASH && (*str)[src] != '\\')
+      if (mode == BACKSLASH)
         mode = NONE;
       src++;
     }
-- 
2.43.0


From 63776d425a572bb87e8c32a83a5943ad6e582ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 22/45] fix: white space at the beginning of a configuration
 file is no argument

---
 src/str.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/str.cc b/src/str.cc
index 4d006c9..fbfc119 100644
--- a/src/str.cc
+++ b/src/str.cc
@@ -163,6 +163,9 @@ void split_with_quotes(std::string *str, const char *delims, bool group,
   size_t tgt = 0;
 
   fields->clear();
+  if (group)
+    while (src < str->length() && strchr(delims, (*str)[src]))
+      src++;
   while (src < str->length()) {
 
     // Find the string before the next delim while processing
-- 
2.43.0


From df226fbaf8524ce024944540fc2fdcd087d08602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 23/45] fix: quote the names of compressed files for the shell

A quote in the name of a .gz or .bz2 file broke the command, a hyphen at
its beginning made it an option of the decompressor.
---
 src/io.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/io.cc b/src/io.cc
index 283797d..aa6976c 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -3,6 +3,17 @@
 namespace io {
 bool Stream::verbose = false;
 
+static std::string shell_quoted(const std::string &str) {
+  std::string quoted("'");
+  for (size_t i = 0; i < str.length(); i++) {
+    if (str[i] == '\'')
+      quoted += "'\\''";
+    else
+      quoted += str[i];
+  }
+  return quoted + "'";
+}
+
 Stream::Stream() : file(NULL), is_pipe(false), close_allowed(true) {}
 
 Stream::Stream(std::string file_name, std::string mode, SeekType seek_type,
@@ -127,16 +138,16 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
     std::string pipe;
     if (mode == "r") {
       if (file_name.substr(file_name.length() - 3) == ".gz")
-        pipe = "gzip -dc '";
+        pipe = "gzip -dc < ";
       else
-        pipe = "bzip2 -dc '";
-      pipe += file_name + "'";
+        pipe = "bzip2 -dc < ";
+      pipe += shell_quoted(file_name);
     } else if (mode == "w") {
       if (file_name.substr(file_name.length() - 3) == ".gz")
-        pipe = "gzip > '";
+        pipe = "gzip > ";
       else
-        pipe = "bzip2 --best > '";
-      pipe += file_name + "'";
+        pipe = "bzip2 --best > ";
+      pipe += shell_quoted(file_name);
     } else {
       fprintf(stderr, "invalid mode %s for gzipped file\n", mode.c_str());
     }
-- 
2.43.0


From 5dc9f553476a5aa838b9612eb505d9b516afa89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 24/45] fix: refuse compressed files that cannot be opened

A missing .gz or .bz2 file was read as an empty one.
---
 src/io.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io.cc b/src/io.cc
index aa6976c..76be511 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -151,6 +151,14 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
     } else {
       fprintf(stderr, "invalid mode %s for gzipped file\n", mode.c_str());
     }
+    // The pipe opens even if the file does not
+    FILE *probe = fopen(file_name.c_str(), mode.c_str());
+    if (probe == NULL) {
+      fprintf(stderr, "could not open mode %s for file %s\n", mode.c_str(),
+              file_name.c_str());
+      throw OpenError();
+    }
+    fclose(probe);
 #ifdef _WIN32
     throw OpenError();
 #else
-- 
2.43.0


From bb7a5abfec271abb4f864a93b50ec80de1b43f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 25/45] fix: open pipes and compressed files in binary modes

Perplexity could not load a compressed binary model by name.
---
 src/io.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/io.cc b/src/io.cc
index 76be511..85110b6 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -3,6 +3,12 @@
 namespace io {
 bool Stream::verbose = false;
 
+static bool has_suffix(const std::string &str, const std::string &suffix) {
+  return str.length() >= suffix.length() &&
+         str.compare(str.length() - suffix.length(), suffix.length(), suffix) ==
+             0;
+}
+
 static std::string shell_quoted(const std::string &str) {
   std::string quoted("'");
   for (size_t i = 0; i < str.length(); i++) {
@@ -35,6 +41,13 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
 
   close_allowed = allow_close;
 
+  // Pipes and the standard streams know no binary mode
+  if (mode == "rb" || mode == "wb")
+    if (file_name == "-" || file_name[0] == '|' ||
+        file_name[file_name.length() - 1] == '|' || has_suffix(file_name, ".gz") ||
+        has_suffix(file_name, ".bz2"))
+      mode.erase(1);
+
   if (verbose) {
     if (mode == "r")
       fprintf(stderr, "Opened read: ");
-- 
2.43.0


From 0798be70afa97cee48c31fe1ab3975c46cce808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 26/45] fix: keep the progress messages of
 simpleinterpolate2arpa out of its output

---
 app/simpleinterpolate2arpa.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/simpleinterpolate2arpa.cc b/app/simpleinterpolate2arpa.cc
index bc56d96..68ccb6b 100644
--- a/app/simpleinterpolate2arpa.cc
+++ b/app/simpleinterpolate2arpa.cc
@@ -24,7 +24,7 @@ component_models_and_weights(const std::string inputlist) {
     }
     const float weight = std::stof(split_strings2[1]);
     const std::string model_name = split_strings2[0];
-    std::cout << "Model " << model_name << " " << weight << std::endl;
+    std::cerr << "Model " << model_name << " " << weight << std::endl;
     std::shared_ptr<HashGram_t<int>> cur_ngram(new HashGram_t<int>);
     all_vocabs.copy_vocab_to(*cur_ngram);
     cur_ngram->set_oov("<UNK>");
-- 
2.43.0


From 6328e64a87c6ec08d0f4e6e779b1f0ef79ff85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 27/45] fix: notice incomplete output and failed decompression

A full disk, a damaged .gz or .bz2 file or a command that could not be
run went unnoticed: the model was cut or trained from what little was
read.
---
 src/io.cc | 58 +++++++++++++++++++++++++++++++++++++++++++++----------
 src/io.hh |  8 +++++++-
 2 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/src/io.cc b/src/io.cc
index 85110b6..71eaa10 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -1,4 +1,7 @@
 #include "io.hh"
+#ifndef _WIN32
+#include <sys/wait.h>
+#endif
 
 namespace io {
 bool Stream::verbose = false;
@@ -20,11 +23,14 @@ static std::string shell_quoted(const std::string &str) {
   return quoted + "'";
 }
 
-Stream::Stream() : file(NULL), is_pipe(false), close_allowed(true) {}
+Stream::Stream()
+    : file(NULL), is_pipe(false), close_allowed(true), writing(false),
+      compressed(false), gzipped(false) {}
 
 Stream::Stream(std::string file_name, std::string mode, SeekType seek_type,
                bool allow_close)
-    : file(NULL), is_pipe(false), close_allowed(true) {
+    : file(NULL), is_pipe(false), close_allowed(true), writing(false),
+      compressed(false), gzipped(false) {
   open(file_name, mode, seek_type, allow_close);
 }
 
@@ -40,6 +46,9 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
   }
 
   close_allowed = allow_close;
+  writing = mode[0] != 'r';
+  gzipped = has_suffix(file_name, ".gz");
+  compressed = false;
 
   // Pipes and the standard streams know no binary mode
   if (mode == "rb" || mode == "wb")
@@ -164,6 +173,7 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
     } else {
       fprintf(stderr, "invalid mode %s for gzipped file\n", mode.c_str());
     }
+    compressed = true;
     // The pipe opens even if the file does not
     FILE *probe = fopen(file_name.c_str(), mode.c_str());
     if (probe == NULL) {
@@ -198,18 +208,46 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
 }
 
 void Stream::close() {
-  if (file == NULL || !close_allowed)
+  if (file == NULL)
     return;
-  if (is_pipe)
+
+  // Reading ends early on purpose, writing does not
+  const bool ended = feof(file);
+  bool failed = ferror(file);
+  if (!close_allowed) {
+    if (writing && fflush(file) != 0)
+      failed = true;
+  } else {
+    if (is_pipe) {
 #ifdef _WIN32
-    throw OpenError();
+      throw OpenError();
 #else
-    pclose(file);
+      const int status = pclose(file);
+      if (status != 0 && (writing || ended) && command_failed(status))
+        failed = true;
 #endif
-  else
-    fclose(file);
-  is_pipe = false;
-  file = NULL;
+    } else if (fclose(file) != 0)
+      failed = true;
+    is_pipe = false;
+    file = NULL;
+  }
+
+  if (failed) {
+    fprintf(stderr, "%s did not succeed. Exit.\n",
+            writing ? "Writing" : "Reading");
+    exit(1);
+  }
 }
 
+#ifndef _WIN32
+bool Stream::command_failed(int status) const {
+  if (!WIFEXITED(status))
+    return true;
+  // The status 2 of gzip is a warning
+  if (compressed)
+    return !gzipped || WEXITSTATUS(status) != 2;
+  return writing || WEXITSTATUS(status) >= 126; // could not be run
+}
+#endif
+
 } // namespace io
diff --git a/src/io.hh b/src/io.hh
index 4403231..3bf0e87 100644
--- a/src/io.hh
+++ b/src/io.hh
@@ -45,7 +45,8 @@ struct Stream {
   void open(std::string file_name, std::string mode,
             SeekType seek_type = LINEAR, bool allow_close = true);
 
-  /** Close the file, but only if \ref close_allowed is \c true. */
+  /** Close the file, but only if \ref close_allowed is \c true.  Exits
+   * if not everything could be written, or a (de)compressor failed. */
   void close();
 
   FILE *file;   //!< The handle for the file or pipe
@@ -59,6 +60,11 @@ struct Stream {
   };
 
 private:
+  bool writing;    //!< Is the stream open for writing
+  bool compressed; //!< Does the pipe run a (de)compressor
+  bool gzipped;    //!< Is the name that of a gzipped file
+  bool command_failed(int status) const;
+
   // Do not allow copying streams!
   Stream(const Stream &stream) { abort(); }
   const Stream &operator=(const Stream &stream) {
-- 
2.43.0


From a85e789a6fef4253c2d4fdc9c13e4894c3bf19f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 28/45] fix: refuse count files with broken lines

---
 src/NgramCounts_tmpl.hh | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 09e2d23..f04ca9c 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -151,26 +151,37 @@ void NgramCounts_t<K, T>::read(FILE *countsfile, FILE *vocabfile) {
   char tmpchar[MAX_WLEN + 1];
   while (fgets(sbuf, MAX_WLEN, countsfile)) {
     // fprintf(stderr,"Looking at line %s",sbuf);
-    cptr = strtok(sbuf, " ");
+    char *endptr;
+    cptr = strtok(sbuf, " \t\r\n");
+    if (!cptr)
+      continue;
     for (int i = 0; i < m_ds.size(); i++) {
       if (!cptr) {
-        fprintf(stderr, "Problem with input, skip entry %s\n", sbuf);
-        break;
+        fprintf(stderr, "Problem with input, too few words on a line. Exit.\n");
+        exit(-1);
       }
       if (vocabfile) {
         // fprintf(stderr,"Adding cptr %s :",cptr);
         // fprintf(stderr,"%s\n", tmp_vocab.word(atoi(cptr)).c_str());
-        int tmp = atoi(cptr);
-        if (tmp >= vocab->num_words()) {
-          fprintf(stderr, "Errors in input, word index %d unknown\n", tmp);
-          continue;
+        const long tmp = strtol(cptr, &endptr, 10);
+        if (*endptr != '\0' || tmp < 0 || tmp >= vocab->num_words()) {
+          fprintf(stderr, "Errors in input, word index %s unknown. Exit.\n",
+                  cptr);
+          exit(-1);
         }
         m_ds[i] = tmp;
       } else {
         sscanf(cptr, "%s", tmpchar);
         m_ds[i] = vocab->add_word(tmpchar);
       }
-      cptr = strtok(NULL, " ");
+      cptr = strtok(NULL, " \t\r\n");
+    }
+    if (cptr)
+      strtod(cptr, &endptr);
+    if (!cptr || *endptr != '\0' || strtok(NULL, " \t\r\n")) {
+      fprintf(stderr, "Problem with input, no count at the end of a line. "
+                      "Exit.\n");
+      exit(-1);
     }
     counts->increment(&m_ds[0], ascii2num(cptr, (T *)NULL));
   }
-- 
2.43.0


From a3457c9b356d11b2e77c4013d845646cca2866ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 29/45] fix: forget the standard stream when opening another
 fails

---
 src/io.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io.cc b/src/io.cc
index 71eaa10..584a9c4 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -39,6 +39,8 @@ Stream::~Stream() { close(); }
 void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
                   bool allow_close) {
   close();
+  file = NULL; // also if it may not be closed
+  is_pipe = false;
 
   if (file_name.length() == 0) {
     fprintf(stderr, "can not open empty filename\n");
-- 
2.43.0


From e0daebe875a84c8adaedb56980bd6a0e7b7a22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 30/45] fix: do not overrun the buffers for long words

---
 app/check_model.cc     | 8 ++++----
 src/PerplexityFuncs.cc | 8 ++++----
 src/Storage_tmpl.hh    | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/app/check_model.cc b/app/check_model.cc
index 26c3324..62c91b5 100644
--- a/app/check_model.cc
+++ b/app/check_model.cc
@@ -75,20 +75,20 @@ int main(int argc, char **argv) {
 
   if (!datafile) {
     std::deque<int> gram;
-    char tmpbuf[MAX_WLEN];
-    while (fscanf(txtin.file, "%s", tmpbuf) != EOF)
+    char tmpbuf[MAX_WLEN + 1];
+    while (fscanf(txtin.file, MAX_WLEN_FMT_STRING, tmpbuf) != EOF)
       gram.push_back(tg->word_index(tmpbuf));
     check_gram(gram, true);
     txtin.close();
     exit(0);
   }
 
-  char word[MAX_WLEN];
+  char word[MAX_WLEN + 1];
   std::deque<int> history;
   int errors = 0;
   int num_words = 0;
   while (true) {
-    const int fsc = fscanf(txtin.file, "%s", word);
+    const int fsc = fscanf(txtin.file, MAX_WLEN_FMT_STRING, word);
     if (!fsc || fsc == EOF)
       break;
     num_words++;
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 2d433fa..7fb10ce 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -124,12 +124,12 @@ void Perplexity::init_special_symbols(const std::string ccs_name,
 }
 
 void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
 
   io::Stream in(fname, "r");
   int temp;
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
 
@@ -142,10 +142,10 @@ void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
 
 void Perplexity::load_mbs(const std::string fname,
                           std::vector<std::string> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
   io::Stream in(fname, "r");
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
     std::string sbuf(buf);
diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index ebcedc9..96e3fad 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -134,17 +134,17 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
 
   io::Stream in(fname, "r", io::REOPENABLE);
   std::vector<T> v;
-  char sbuf[MAX_WLEN];
+  char sbuf[MAX_WLEN + 1];
 
   if (this->clear_lm_history == -1) {
     for (int i = 0; i < order - 1; i++) {
-      if (fscanf(in.file, "%s", sbuf) != 1)
+      if (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) != 1)
         return;
       v.push_back(voc->word_index(sbuf));
     }
     v.push_back(0); // vector is of right size
 
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       indextype idx = FindEntry(m_refmat->m, (byte *)(&v[0]), 0);
       // fprintf(stderr,"%d: idx %d(<%d) ",i,idx,m_lists.size());
       T widx = voc->word_index(sbuf);
@@ -159,7 +159,7 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
         v[j] = v[j + 1];
     }
   } else {
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       T widx = voc->word_index(sbuf);
       if (widx == this->clear_lm_history)
         v.clear();
-- 
2.43.0


From d2f825b4e5f210c135a687f43b1296b64b92ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 31/45] fix: refuse ARPA files with broken counts, sections and
 numbers

---
 src/ArpaReader.cc | 57 +++++++++++++++++++++++++++++++++++------------
 src/str.cc        |  2 +-
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/ArpaReader.cc b/src/ArpaReader.cc
index 1493ae5..a900dc5 100644
--- a/src/ArpaReader.cc
+++ b/src/ArpaReader.cc
@@ -3,8 +3,30 @@
 #include "ArpaReader.hh"
 #include "def.hh"
 #include "str.hh"
+#include <ctype.h>
+#include <limits.h>
 #include <stdlib.h>
 
+// Convert a field of the file, nothing but white space may follow the number.
+static bool parse_count(const std::string &field, int *count) {
+  char *end;
+  const long value = strtol(field.c_str(), &end, 10);
+  if (end == field.c_str())
+    return false;
+  while (isspace((unsigned char)*end))
+    end++;
+  if (*end != '\0' || value < 0 || value > INT_MAX)
+    return false;
+  *count = value;
+  return true;
+}
+
+static bool parse_float(const std::string &field, float *number) {
+  char *end;
+  *number = strtod(field.c_str(), &end);
+  return end != field.c_str() && *end == '\0';
+}
+
 void ArpaReader::read_error() {
   fprintf(stderr, "ArpaReader::read(): error on line %d\n", m_lineno);
   exit(1);
@@ -75,15 +97,19 @@ void ArpaReader::read_header(FILE *file, bool &interpolated,
     if (m_vec.size() != 2)
       read_error();
 
-    int count = atoi(m_vec[1].c_str());
+    int count, count_order;
+    if (!parse_count(m_vec[0], &count_order) ||
+        !parse_count(m_vec[1], &count) || count_order != order)
+      read_error();
     if (count > max_order_count)
       max_order_count = count;
     counts.push_back(count);
-
-    if (atoi(m_vec[0].c_str()) != order || counts.back() < 0)
-      read_error();
     order++;
   }
+
+  // There must be something to read
+  if (counts.empty())
+    read_error();
 }
 
 bool ArpaReader::next_gram(FILE *file, std::string &line,
@@ -94,8 +120,9 @@ bool ArpaReader::next_gram(FILE *file, std::string &line,
     m_gram_num = 0;
     m_read_order++;
 
-    // Skip empty lines before the next order.
-    bool skip_empty_lines = line != "\\1-grams:";
+    // Skip empty lines before the next order.  The line that ended the header
+    // must open the first section.
+    bool skip_empty_lines = m_read_order > 1;
     while (skip_empty_lines) {
       if (!str::read_line(&line, file, true)) {
         if (ferror(file))
@@ -133,10 +160,7 @@ bool ArpaReader::next_gram(FILE *file, std::string &line,
     }
 
     str::clean(&line, " \t");
-    str::split(&line, "-", false, &m_vec);
-
-    if (atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
-        m_vec[1] != "grams:") {
+    if (line != str::fmt(32, "\\%d-grams:", m_read_order)) {
       fprintf(stderr,
               "ArpaReader::next_gram(): "
               "unexpected command on line %d: %s\n",
@@ -178,11 +202,16 @@ bool ArpaReader::next_gram(FILE *file, std::string &line,
   // FIXME: should we deny new words in higher order ngrams?
 
   // Parse log-probability, back-off weight and word indices
-  // FIXME: check the conversion of floats
-  log_prob = strtod(m_vec[0].c_str(), NULL);
   back_off = 0;
-  if (m_vec.size() == m_read_order + 2)
-    back_off = strtod(m_vec[m_read_order + 1].c_str(), NULL);
+  if (!parse_float(m_vec[0], &log_prob) ||
+      (m_vec.size() == m_read_order + 2 &&
+       !parse_float(m_vec[m_read_order + 1], &back_off))) {
+    fprintf(stderr,
+            "ArpaReader::next_gram(): "
+            "invalid number on line %d\n",
+            m_lineno);
+    exit(1);
+  }
 
   // Add the gram to sorter
   // fprintf(stderr,"add gram [");
diff --git a/src/str.cc b/src/str.cc
index fbfc119..ea3e7e2 100644
--- a/src/str.cc
+++ b/src/str.cc
@@ -31,7 +31,7 @@ bool read_line(std::string *str, FILE *file, bool do_chomp) {
       break;
 
     str->append(buf);
-    if ((*str)[str->length() - 1] == '\n') {
+    if (!str->empty() && (*str)[str->length() - 1] == '\n') {
       break;
     }
   }
-- 
2.43.0


From 6d57ef2119bb08e6d11d143789db2e97a50db03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 32/45] fix: refuse broken headers when only counting

---
 app/arpasize.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/app/arpasize.cc b/app/arpasize.cc
index 09f67c0..535919e 100644
--- a/app/arpasize.cc
+++ b/app/arpasize.cc
@@ -21,22 +21,24 @@ void simple_count(const conf::Config &config, io::Stream *in, io::Stream *out) {
   }
 
   std::string sbuf;
-  while (str::read_line(&sbuf, in->file, true) && "\\data\\" != sbuf)
+  bool ok;
+  while ((ok = str::read_line(&sbuf, in->file, true)) && "\\data\\" != sbuf)
     ;
   int i = 1;
   int i2;
   int count;
+  char rest;
   std::vector<int> counts;
-  while (str::read_line(&sbuf, in->file, true) &&
-         sscanf(sbuf.c_str(), "ngram %d=%d", &i2, &count) == 2) {
-    if (i2 != i) {
+  while (ok && (ok = str::read_line(&sbuf, in->file, true)) &&
+         sscanf(sbuf.c_str(), "ngram %d=%d %c", &i2, &count, &rest) == 2) {
+    if (i2 != i || count < 0) {
       fprintf(stderr, "read error, exit\n");
       exit(-1);
     }
     counts.push_back(count);
     i++;
   }
-  if (sbuf.length() > 0) {
+  if (!ok || sbuf.length() > 0 || counts.empty()) {
     fprintf(stderr, "read error,exit\n");
     exit(-1);
   }
-- 
2.43.0


From 4dee095ae2aeb37bf4633699f6c743f505fe3994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 33/45] fix: refuse broken binary models

---
 src/TreeGram.cc | 37 +++++++++++++++++++++++++++++++++----
 src/TreeGram.hh |  1 +
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index c2080f0..60a1704 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -436,8 +436,8 @@ void TreeGram::read(FILE *file, bool binary) {
     fprintf(stderr, "TreeGram::read(): unexpected end of file\n");
     throw ReadError();
   }
-  words = atoi(line.c_str());
-  if (words < 1) {
+  char rest;
+  if (sscanf(line.c_str(), "%d %c", &words, &rest) != 1 || words < 1) {
     fprintf(stderr, "TreeGram::read(): invalid number of words: %s\n",
             line.c_str());
     throw ReadError();
@@ -456,7 +456,9 @@ void TreeGram::read(FILE *file, bool binary) {
 
   // Read the order and the number of nodes
   int number_of_nodes;
-  if (fscanf(file, "%d %d\n", &m_order, &number_of_nodes) != 2) {
+  if (fscanf(file, "%d %d\n", &m_order, &number_of_nodes) != 2 ||
+      m_order < 1 || number_of_nodes < m_order) {
+    fprintf(stderr, "TreeGram::read(): invalid order or number of nodes\n");
     throw ReadError();
   }
 
@@ -464,7 +466,9 @@ void TreeGram::read(FILE *file, bool binary) {
   int sum = 0;
   m_order_count.resize(m_order);
   for (int i = 0; i < m_order; i++) {
-    if (fscanf(file, "%d\n", &m_order_count[i]) != 1) {
+    if (fscanf(file, "%d\n", &m_order_count[i]) != 1 ||
+        m_order_count[i] < 0 || m_order_count[i] > number_of_nodes - sum) {
+      fprintf(stderr, "TreeGram::read(): invalid order counts\n");
       throw ReadError();
     }
     sum += m_order_count[i];
@@ -494,6 +498,31 @@ void TreeGram::read(FILE *file, bool binary) {
 
   if (Endian::big)
     flip_endian();
+
+  check_nodes();
+}
+
+// The nodes of each order follow the nodes of the previous order, and their
+// children are among the nodes of the next order.
+void TreeGram::check_nodes() {
+  bool ok = m_order_count[0] == num_words();
+  int i = 0;
+  for (int order = 1; order <= m_order; order++) {
+    const int last = i + m_order_count[order - 1];
+    const int last_child = order < m_order ? last + m_order_count[order] : last;
+    for (; ok && i < last; i++) {
+      const Node &node = m_nodes[i];
+      if (node.word < 0 || node.word >= num_words() ||
+          (order == 1 && node.word != i) ||
+          (node.child_index != -1 &&
+           (node.child_index < last || node.child_index > last_child)))
+        ok = false;
+    }
+  }
+  if (!ok) {
+    fprintf(stderr, "TreeGram::read(): invalid ngrams\n");
+    throw ReadError();
+  }
 }
 
 void TreeGram::flip_endian() {
diff --git a/src/TreeGram.hh b/src/TreeGram.hh
index cf9e341..90709d3 100644
--- a/src/TreeGram.hh
+++ b/src/TreeGram.hh
@@ -155,6 +155,7 @@ private:
   void find_path(const Gram &gram);
   void check_order(const Gram &gram, bool add_missing_unigrams = false);
   void flip_endian();
+  void check_nodes();
   void fetch_gram(const Gram &gram, int first);
 
   std::vector<int> m_order_count; // number of grams in each order
-- 
2.43.0


From 8e764c1b7be9782807552cd6ebf4ba7e151ebedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 34/45] fix: refuse repeated 1-grams when models are
 interpolated

---
 src/TreeGram.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 60a1704..44c86d3 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -53,7 +53,7 @@ void TreeGram::check_order(const Gram &gram, bool add_missing_unigrams) {
   if (gram.size() == 1) {
     if (add_missing_unigrams) {
       Gram g(1);
-      while (gram[0] != m_nodes.size()) {
+      while (gram[0] > (int)m_nodes.size()) {
         g[0] = m_nodes.size();
         add_gram(g, MINLOGPROB, 0);
       }
-- 
2.43.0


From 7366d845e0c37343d7bf8f75af7d10df5a0e8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 35/45] fix: arpasize: compare n-grams with the whole
 backed-off probability

A book-keeping n-gram has the probability that backing off gives it, which
includes the back-off weight of its context.
---
 app/arpasize.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/arpasize.cc b/app/arpasize.cc
index 535919e..ae1a011 100644
--- a/app/arpasize.cc
+++ b/app/arpasize.cc
@@ -77,7 +77,9 @@ void dummyless_count(TreeGram *ng, const io::Stream *out) {
         continue;
       }
       const float lp_orig = ng->log_prob(indices);
-      const float lp_prefix = ng->log_prob(prefixindices);
+      // The probability this gram would get by backing off
+      const float lp_prefix =
+          ng->log_prob(prefixindices) + iter.node(o - 1).back_off;
       // fprintf(stderr,"lp %g, lpp %g, pdif %2.1f, ",lp_orig, lp_prefix,
       // fabs((lp_orig-lp_prefix)/lp_orig));
       if (fabs((lp_orig - lp_prefix) / lp_orig) < PERLIM) {
-- 
2.43.0


From d455c2cf239cbbe01fa02571f3218011b76597f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 36/45] fix: arpasize: count n-grams with back-off weights
 above one

---
 app/arpasize.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/arpasize.cc b/app/arpasize.cc
index ae1a011..9ff6732 100644
--- a/app/arpasize.cc
+++ b/app/arpasize.cc
@@ -71,7 +71,7 @@ void dummyless_count(TreeGram *ng, const io::Stream *out) {
         prefixindices[j - 2] = indices[j - 1];
       }
 
-      if (iter.node().back_off < -SIMILIMI) {
+      if (fabs(iter.node().back_off) > SIMILIMI) {
         // fprintf(stderr,"accepted, bo %g\n",iter.node().back_off);
         order_grams++;
         continue;
-- 
2.43.0


From a4c6dd98a207f439bb06773c9ea87d536fc93e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 37/45] fix: varigram_kn -V ends when only unigrams are left to
 prune

---
 src/VarigramFuncs_tmpl.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/VarigramFuncs_tmpl.hh b/src/VarigramFuncs_tmpl.hh
index 98ca2eb..e8cdfda 100644
--- a/src/VarigramFuncs_tmpl.hh
+++ b/src/VarigramFuncs_tmpl.hh
@@ -199,6 +199,12 @@ template <typename KT, typename ICT> void Varigram_t<KT, ICT>::prune() {
 
     while (double(m_kn->num_grams()) > double(m_ngram_prune_target) * 1.03) {
 
+      /* Unigrams are never pruned */
+      if (m_kn->num_grams() <= m_kn->MocOrderSize(1)) {
+        fprintf(stderr, "WARNING: only unigrams left, stopping\n");
+        break;
+      }
+
       if (round == 0) {
         fprintf(stderr, "Currently %d ngrams. First prune with E=D=%.5f\n",
                 m_kn->num_grams(), cur_scale);
-- 
2.43.0


From 388966dbb9ec9b256aca92c198b0365d2d7c66c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 38/45] fix: cut the lines of a word list at the first blank
 after the word, also when the line starts with one

---
 src/Vocabulary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vocabulary.cc b/src/Vocabulary.cc
index 05c8e3e..6905d14 100644
--- a/src/Vocabulary.cc
+++ b/src/Vocabulary.cc
@@ -54,7 +54,7 @@ void Vocabulary::read(FILE *file) {
     // Check if " " or "(" is present and truncate the word to
     // that symbol. You can use dictionary files in CMUdict
     // and Decoder formats this way.
-    int end_2 = word.find_first_of(" (") - 1;
+    int end_2 = word.find_first_of(" (", start + 1) - 1;
     if ((end_2 > -1) && (end_2 < end - 1))
       end = end_2;
     word = word.substr(start, end - start + 1);
-- 
2.43.0


From 6b2815e7ddd1cc15c8a1734999f28adb7bbd470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 39/45] fix: sentence_logprob splits at any white space

---
 src/PerplexityFuncs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 7fb10ce..904e4a8 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -163,12 +163,12 @@ float Perplexity::sentence_logprob(const char *sentence_in) {
     m_tmpstring =
         (char *)realloc(m_tmpstring, m_tmpstring_length * sizeof(char));
   }
-  char *cptr = strtok(sentence, " ");
+  char *cptr = strtok(sentence, " \t\n\v\f\r");
 
   while (cptr) {
     sscanf(cptr, "%s", m_tmpstring);
     lpsum += logprob(m_tmpstring, foo);
-    cptr = strtok(NULL, " ");
+    cptr = strtok(NULL, " \t\n\v\f\r");
   }
   free(sentence);
   return -lpsum;
-- 
2.43.0


From 0dfdb726091094026d6de86e90feaf3768f23e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 40/45] fix: the held-out search of discounts narrows its range
 at every step

---
 src/QFit.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/QFit.cc b/src/QFit.cc
index cf0d67f..df15efd 100644
--- a/src/QFit.cc
+++ b/src/QFit.cc
@@ -1,6 +1,7 @@
 // Numerical search, quadratic fit
 #include "QFit.hh"
 #include "def.hh"
+#include <algorithm>
 #include <math.h>
 
 const float SMALLNUM = 1e-5f;
@@ -50,7 +51,7 @@ std::vector<float> QFit::minimize(int maxiter) {
           if (t2 >= t3) {
             // fprintf(stderr," a\n");
             l1 = l2;
-            t1 = l2;
+            t1 = t2;
           } else {
             // fprintf(stderr," b\n");
             l3 = l2;
@@ -75,10 +76,11 @@ std::vector<float> QFit::minimize(int maxiter) {
           // print_indices(stderr,m_res);fprintf(stderr,"\n");
           t = m_qe->evaluate(m_res);
           if (fabs(l - l2) < utol / 4) {
+            // Try the wider side, but stay within the limits
             if (l2 - l1 < l3 - l2)
-              l = l + utol / 2;
+              l = l2 + std::min(utol / 2, (l3 - l2) / 2);
             else
-              l = l - utol / 2;
+              l = l2 - std::min(utol / 2, (l2 - l1) / 2);
           }
           m_res[c] = l;
           // print_indices(stderr,m_res);fprintf(stderr,"\n");
-- 
2.43.0


From 237049b919210638a972f2f1520d1a1e2ea9866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 41/45] fix: the held-out search stays in its range when
 rounding spoils the fit

---
 src/QFit.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/QFit.cc b/src/QFit.cc
index df15efd..a341904 100644
--- a/src/QFit.cc
+++ b/src/QFit.cc
@@ -72,6 +72,9 @@ std::vector<float> QFit::minimize(int maxiter) {
           // %g)*(l3%g*l3-l2 %g*l2))/((t1 %g-t2 %g)*(l3 %g-l2 %g)-(t3 %g-t2
           // %g)*(l1 %g-l2 %g))/2=l %g\n", t3, t2, l1, l2,
           // t1,t2,l3,l2,t1,t2,l3,l2,t3,t2,l1,l2,l);
+          // Rounding may take the minimum of the fit out of the range
+          if (!(l > l1 && l < l3))
+            l = l2;
           m_res[c] = l;
           // print_indices(stderr,m_res);fprintf(stderr,"\n");
           t = m_qe->evaluate(m_res);
-- 
2.43.0


From 75aa558780edf1e3ad5140e65455e6581d9d936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 42/45] fix: refuse broken count files when smoothed counts are
 read

Lines with missing or superfluous fields, sections of impossible orders, word
numbers outside the vocabulary, counts that do not fit, and files cut short
crashed counts2kn or gave a model of whatever was there.
---
 src/InterKn_tmpl.hh          |  2 +-
 src/MultiOrderCounts.hh      | 35 ++++++++++++-------
 src/MultiOrderCounts_tmpl.hh | 67 ++++++++++++++++++++++++++++--------
 src/NgramCounts_tmpl.hh      | 14 +++++---
 4 files changed, 86 insertions(+), 32 deletions(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index a0c96f7..003699e 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -696,7 +696,7 @@ void InterKn_t<KT, CT>::constructor_helper(
       /* The counts include all orders and have already been KN-discounted */
       fprintf(stderr, "Reading previously KN-discounted counts\n");
       this->vocab.read(vocabin.file);
-      this->moc->ReadCounts(datain.file);
+      this->moc->ReadCounts(datain.file, this->vocab.num_words());
     }
     this->moc->vocabsize = this->vocab.num_words();
   } else {
diff --git a/src/MultiOrderCounts.hh b/src/MultiOrderCounts.hh
index 51f5ae2..4b1a1c7 100644
--- a/src/MultiOrderCounts.hh
+++ b/src/MultiOrderCounts.hh
@@ -171,7 +171,7 @@ public:
   virtual inline indextype bo_order_size(int o) = 0;
 
   virtual void WriteCounts(FILE *out) = 0;
-  virtual void ReadCounts(FILE *in) = 0;
+  virtual void ReadCounts(FILE *in, int num_words) = 0;
   virtual void RemoveOrder(int order) = 0;
   long InitializeCountsFromText(FILE *in, Vocabulary *vocab,
                                 const bool grow_vocab, const int read_order,
@@ -278,7 +278,10 @@ public:
     fprintf(out, "%.4f", val);
   }
   inline void read_num(int *val, const std::string *s, bool *ok) {
-    *val = str::str2long(s, ok);
+    const long value = str::str2long(s, ok);
+    *val = value;
+    if (*val != value)
+      *ok = false;
   }
 
   inline void read_num(long *val, const std::string *s, bool *ok) {
@@ -286,7 +289,10 @@ public:
   }
 
   inline void read_num(unsigned int *val, const std::string *s, bool *ok) {
-    *val = str::str2long(s, ok);
+    const long value = str::str2long(s, ok);
+    *val = value;
+    if (*val != value)
+      *ok = false;
   }
 
   inline void read_num(float *val, const std::string *s, bool *ok) {
@@ -328,7 +334,7 @@ public:
 
   inline int order() { return MultiOrderCounts<KT, CT>::m_counts.size() - 1; }
   void WriteCounts(FILE *out);
-  void ReadCounts(FILE *in);
+  void ReadCounts(FILE *in, int num_words);
 
   void RemoveOrder(int order);
   // void RemoveEmptyNodes(const int order, const indextype start, const
@@ -397,6 +403,7 @@ public:
 protected:
   virtual void WriteCounts_BOhelper(FILE *out, BOT *bo) = 0;
   virtual void ReadCounts_BOhelper(BOT *bo, std::string *s, bool *ok) = 0;
+  virtual int num_backoff_fields() = 0;
   void allocate_matrices_backoffs(int o);
   BOT m_uni_bo;
 
@@ -461,10 +468,11 @@ private:
   }
 
   inline void ReadCounts_BOhelper(bo_c *bo, std::string *s, bool *ok) {
-    bo->nzer = str::str2long(s, ok);
-    bo->den = str::str2long(s + 1, ok);
-    bo->prune_den = str::str2long(s + 2, ok);
+    this->read_num(&bo->nzer, s, ok);
+    this->read_num(&bo->den, s + 1, ok);
+    this->read_num(&bo->prune_den, s + 2, ok);
   }
+  inline int num_backoff_fields() { return 3; }
 };
 
 template <typename KT, typename CT>
@@ -492,6 +500,7 @@ private:
   inline void ReadCounts_BOhelper(bo_c_fp *bo, std::string *s, bool *ok) {
     assert(false);
   }
+  inline int num_backoff_fields() { return 3; }
 };
 
 template <typename KT, typename CT>
@@ -531,16 +540,17 @@ private:
             (long)bo->nzer[2], (long)bo->den, (long)bo->prune_den);
   }
   inline void ReadCounts_BOhelper(bo_3c *bo, std::string *s, bool *ok) {
-    bo->nzer[0] = str::str2long(s, ok);
+    this->read_num(&bo->nzer[0], s, ok);
     // fprintf(stderr,"nz %s=%d(%d)\n",s->c_str(), bo->nzer[0], ok);
-    bo->nzer[1] = str::str2long(s + 1, ok);
+    this->read_num(&bo->nzer[1], s + 1, ok);
     // fprintf(stderr,"nz %s=%d(%d)\n",(s+1)->c_str(), bo->nzer[1], ok);
-    bo->nzer[2] = str::str2long(s + 2, ok);
+    this->read_num(&bo->nzer[2], s + 2, ok);
     // fprintf(stderr,"nz %s=%d(%d)\n",(s+2)->c_str(), bo->nzer[2], ok);
-    bo->den = str::str2long(s + 3, ok);
+    this->read_num(&bo->den, s + 3, ok);
     // fprintf(stderr,"den %s=%d(%d)\n",(s+3)->c_str(), bo->den, ok);
-    bo->prune_den = str::str2long(s + 4, ok);
+    this->read_num(&bo->prune_den, s + 4, ok);
   }
+  inline int num_backoff_fields() { return 5; }
 };
 
 template <typename KT, typename CT>
@@ -558,6 +568,7 @@ private:
   inline void ReadCounts_BOhelper(bo_3c_fp *bo, std::string *s, bool *ok) {
     assert(false);
   }
+  inline int num_backoff_fields() { return 5; }
 };
 
 #include "MultiOrderCounts_tmpl.hh"
diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index 6fb1447..f5bef79 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -292,14 +292,16 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::WriteCounts(FILE *out) {
 }
 
 template <typename KT, typename CT, typename BOT>
-void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
+void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in,
+                                                           int num_words) {
   int order = -1;
   std::string line;
   std::vector<KT> v;
   std::vector<std::string> vec;
   CT val;
   BOT bo_val;
-  long lineno = 0;
+  long lineno = 1;
+  int max_order = 0;
   bool read_backoffs = false;
   bool ok = true;
 
@@ -319,14 +321,20 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
 
     if (line[0] == '\\') {
       str::split(&line, "-", true, &vec);
-      vec[0][0] = ' ';
-      order = str::str2long(&vec[0], &ok);
+      long section = 0;
+      if (vec.size() == 2) {
+        vec[0][0] = ' ';
+        section = str::str2long(&vec[0], &ok);
+      }
+      if (section < 1 || section > max_order + 1)
+        ok = false;
+      order = section;
       // fprintf(stderr,"ordered %s=%d(%d)\n", vec[0].c_str(), order, ok);
       // fprintf(stderr,"comparestring *%s*\n", vec[1].c_str());
-      if (!strcmp("gram counts", vec[1].c_str())) {
+      if (ok && !strcmp("gram counts", vec[1].c_str())) {
         read_backoffs = false;
         v.resize(order);
-      } else if (!strcmp("gram backoffs", vec[1].c_str())) {
+      } else if (ok && !strcmp("gram backoffs", vec[1].c_str())) {
         read_backoffs = true;
         v.resize(order - 1);
       } else
@@ -336,17 +344,30 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
                 line.c_str());
         exit(-1);
       }
+      max_order = std::max(order, max_order);
       continue;
     }
 
     str::split(&line, " \t", true, &vec);
+    const int num_indices = read_backoffs ? order - 1 : order;
+    const int num_values = read_backoffs ? num_backoff_fields() : 1;
+    if (order < 1 || vec.size() != num_indices + num_values + 2 ||
+        vec[0] != "[" || vec[num_indices + 1] != "]")
+      ok = false;
+    for (int i = 1; ok && i <= num_indices; i++) {
+      const long idx = str::str2long(&vec[i], &ok);
+      if (idx < 0 || idx >= num_words || (KT)idx != idx)
+        ok = false;
+      v[i - 1] = idx;
+    }
+    for (int i = num_indices + 2; ok && i < (int)vec.size(); i++) {
+      if (vec[i][0] == '-')
+        ok = false;
+    }
     // fprintf(stderr,"ORDER %d\n", order);
     if (!read_backoffs) {
-      for (int i = 1; i <= order; i++) {
-        v[i - 1] = str::str2long(&vec[i], &ok);
-        // fprintf(stderr,"Putting %s=%d, %d\n", vec[i].c_str(), v[i-1], ok);
-      }
-      this->read_num(&val, &vec[order + 2], &ok);
+      if (ok)
+        this->read_num(&val, &vec[order + 2], &ok);
       // fprintf(stderr,"Val %s=%d (%d)\n", vec[order+2].c_str(), val, ok);
       if (!ok) {
         fprintf(stderr, "Error reading line %ld:\n%s\nExit2.\n", lineno,
@@ -358,18 +379,34 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
       this->SetCount(v, val);
       continue;
     }
-    for (int i = 1; i < order; i++) {
-      v[i - 1] = str::str2long(&vec[i], &ok);
-    }
-    ReadCounts_BOhelper(&bo_val, &vec[order + 1], &ok);
+    if (ok)
+      ReadCounts_BOhelper(&bo_val, &vec[order + 1], &ok);
     if (!ok) {
       fprintf(stderr, "Error reading line %ld. Exit3.\n", lineno);
       exit(-1);
     }
     SetBackoff(order, &v[0], &bo_val);
   }
+
+  // The totals of the highest order are the end, and every n-gram needs the
+  // totals of its context
+  if (!read_backoffs || order != max_order)
+    ok = false;
+  for (int o = 1; o <= this->order(); o++) {
+    v.resize(o);
+    this->StepCountsOrder(true, o, &v[0], &val);
+    while (this->StepCountsOrder(false, o, &v[0], &val)) {
+      if (val != 0 && this->GetBackoffDen(o, &v[0]) <= 0)
+        ok = false;
+    }
+  }
+  if (!ok || this->order() < 1) {
+    fprintf(stderr, "The counts file is not complete. Exit.\n");
+    exit(-1);
+  }
 }
 
+
 template <typename KT, typename CT, typename BOT>
 void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::IncrementBackoffCache(
     const int order, const KT *indices, const BOT *value) {
diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index f04ca9c..1c92373 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -176,14 +176,20 @@ void NgramCounts_t<K, T>::read(FILE *countsfile, FILE *vocabfile) {
       }
       cptr = strtok(NULL, " \t\r\n");
     }
-    if (cptr)
-      strtod(cptr, &endptr);
-    if (!cptr || *endptr != '\0' || strtok(NULL, " \t\r\n")) {
+    double number = 0;
+    T value = 0;
+    if (cptr) {
+      number = strtod(cptr, &endptr);
+      value = ascii2num(cptr, (T *)NULL);
+    }
+    // The count must be one that T can hold
+    if (!cptr || *endptr != '\0' || strtok(NULL, " \t\r\n") || value < 0 ||
+        (float)value != (float)number) {
       fprintf(stderr, "Problem with input, no count at the end of a line. "
                       "Exit.\n");
       exit(-1);
     }
-    counts->increment(&m_ds[0], ascii2num(cptr, (T *)NULL));
+    counts->increment(&m_ds[0], value);
   }
 }
 
-- 
2.43.0


From e137951dcb6f784bd6538e2037f823c7eca72913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 43/45] fix: read the vocabulary of highest-order counts like
 every other word list

Blank lines counted as words there, and blanks and carriage returns at the
ends of lines belonged to the words.
---
 src/NgramCounts_tmpl.hh | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 1c92373..c1ce297 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -122,17 +122,13 @@ void NgramCounts_t<K, T>::write(FILE *out, FILE *vocabout, bool sort) {
 
 template <typename K, typename T>
 void NgramCounts_t<K, T>::read_vocab(FILE *vocabfile) {
-  std::string sbuf;
-  while (str::read_line(&sbuf, vocabfile, true)) {
-    int idx = vocab->add_word(sbuf);
-    // fprintf(stderr,"Word %s, idx %d size %d\n",sbuf,idx,num_words());
-    if (idx >= m_max_vocab - 1) {
-      fprintf(stderr,
-              "Exceeded maximum vocab size %d.\n"
-              "Please increase the max size\n",
-              m_max_vocab);
-      exit(-1);
-    }
+  vocab->read(vocabfile);
+  if (vocab->num_words() >= m_max_vocab) {
+    fprintf(stderr,
+            "Exceeded maximum vocab size %d.\n"
+            "Please increase the max size\n",
+            m_max_vocab);
+    exit(-1);
   }
 }
 
-- 
2.43.0


From 3cf2119fe221a4a0c62242fca5b17d117acc6a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:11 +0000
Subject: [PATCH 44/45] fix: refuse a file of highest-order counts without any
 count

---
 src/NgramCounts_tmpl.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index c1ce297..c7bfb1e 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -145,6 +145,7 @@ void NgramCounts_t<K, T>::read(FILE *countsfile, FILE *vocabfile) {
     read_vocab(vocabfile);
 
   char tmpchar[MAX_WLEN + 1];
+  bool empty = true;
   while (fgets(sbuf, MAX_WLEN, countsfile)) {
     // fprintf(stderr,"Looking at line %s",sbuf);
     char *endptr;
@@ -186,6 +187,12 @@ void NgramCounts_t<K, T>::read(FILE *countsfile, FILE *vocabfile) {
       exit(-1);
     }
     counts->increment(&m_ds[0], value);
+    if (value > 0)
+      empty = false;
+  }
+  if (empty) {
+    fprintf(stderr, "No counts in the input. Exit.\n");
+    exit(-1);
   }
 }
 
-- 
2.43.0


From ae70a268de421f775ecd0e19375f18aad120857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 45/45] fix: only the words <s> and </s> themselves mark
 sentences in a text

---
 src/PerplexityFuncs.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 904e4a8..ff04ece 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -184,7 +184,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
 
   int idx = m_lm->word_index(word);
   if (m_cur_init_hist > 0) {
-    if (strncmp("<s>", word, 3) && is_wb(idx, word)) {
+    if (strcmp("<s>", word) && is_wb(idx, word)) {
       m_num_pwords++;
     }
     m_cur_init_hist--;
@@ -193,7 +193,7 @@ float Perplexity::logprob(const char *word, float &cur_word_lp) {
     return (0.0);
   }
 
-  if (!strncmp("</s>", word, 4)) {
+  if (!strcmp("</s>", word)) {
     m_cur_init_hist = m_init_hist;
     m_num_sent_ends++;
   }
-- 
2.43.0

