// C13: every language model implementation against the textbook back-off recursion.
#include "lmgen.h"
#include <lm/model.hh>
#include <lm/left.hh>
#include <lm/binary_format.hh>
#include <lm/enumerate_vocab.hh>
#include <memory>
#include <unistd.h>
using pbt::S; using pbt::show; using namespace std; using namespace lm::ngram;
typedef vector<string> Words;

struct Vocab : lm::EnumerateVocab { map<lm::WordIndex, string> m; int bad; Vocab() : bad(0) {} void Add(lm::WordIndex i, const StringPiece& s) { if (m.count(i)) bad++; m[i] = s.as_string(); } };
static lm::ngram::Config conf(S& s, const lmg::Lm& m, Vocab* v) { lm::ngram::Config c; c.show_progress = false; c.messages = NULL; c.unknown_missing = lm::SILENT; c.sentence_marker_missing = lm::SILENT; c.positive_log_probability = lm::SILENT; c.arpa_complain = lm::ngram::Config::NONE; c.probing_multiplier = m.blanks ? 100 : 1.5; c.temporary_directory_prefix = pbt::scratch() + "/"; c.building_memory = s.coin() ? 1 << 20 : 1 << 24; c.prob_bits = s.range(8, 10); c.backoff_bits = s.range(8, 10); c.pointer_bhiksha_bits = s.range(0, 8); c.enumerate_vocab = v; c.rest_function = lm::ngram::Config::REST_MAX; return c; }
static Words sentence(S& s, const lmg::Lm& m, int max) { Words w; int n = s.range(0, max); vector<Words> gs; for (auto& x : m.t) if (x.first.size() > 1) gs.push_back(x.first); while ((int)w.size() < n) { if (!gs.empty() && s.coin()) { for (auto& x : gs[s.below(gs.size())]) if (x[0] != '<') w.push_back(x); } else if (s.coin(1, 6)) w.push_back("zzz"); else w.push_back(m.vocab[s.below(m.vocab.size())]); } w.resize(n); return w; }
static string ctx(const Words& w) { string r; for (auto& x : w) r += x + " "; return r; }
static double tol(double v) { return 2e-4 + 2e-6 * fabs(v); }

// random bracketing of words [l,r): the score of its words and its chart state
template <class M> float chart(S& s, const M& m, const vector<lm::WordIndex>& id, int l, int r, ChartState& out, string& sh) {
  RuleScore<M> rs(m, out); bool first = true; sh += "("; int i = l;
  while (i < r) { int w = s.coin() ? 1 : s.range(1, r - l); w = min(w, r - i); if (w == r - l && w > 1) w = s.range(1, w - 1); if (w == 1 && (r - l == 1 || s.coin())) { rs.Terminal(id[i]); sh += " " + show(id[i]); } else { ChartState in; float p = chart(s, m, id, i, i + w, in, sh); if (first && s.coin()) rs.BeginNonTerminal(in, p); else rs.NonTerminal(in, p); } i += w; first = false; }
  sh += ")"; return rs.Finish();
}


// The tries do not note that a context which only a blank (a pruned suffix of a listed n-gram) extends can be extended: chart states then stop short.
static bool blankcontext(const lmg::Lm& m) { set<Words> ext; for (auto& x : m.t) ext.insert(Words(x.first.begin(), x.first.end() - 1)); for (auto& x : m.t) for (size_t k = 1; k + 1 < x.first.size(); k++) { Words h(x.first.begin() + k, x.first.end()), c(h.begin(), h.end() - 1); if (h.size() < 2 || m.t.count(h) || ext.count(c)) continue; auto i = m.t.find(c); if (i == m.t.end() || i->second.b == 0) return true; } return false; }
#define CHART(x) do { ostringstream o_; o_ << x; if (trie && blankcontext(m)) s.finding("trie-pruned-context", o_.str()); FAIL(o_.str()); } while (0)
template <class M> void check(S& s, const lmg::Lm& m, const M& model, const char* name, bool rest, bool trie, int& nt) {
  CHECK_EQ((int)model.Order(), m.order, name << " order"); const typename M::Vocabulary& v = model.GetVocabulary(); CHECK_EQ(v.Index("zzz"), v.NotFound(), name << " unknown word"); set<lm::WordIndex> ids; for (auto& w : m.vocab) ids.insert(v.Index(w)); CHECK_EQ(ids.size(), m.vocab.size(), name << " word numbers");
  struct St { State st; Words c; }; vector<St> seen;
  for (int q = 0; q < 3; q++) { Words w = sentence(s, m, 7); bool bos = s.coin(3, 4); Words c; if (bos) c.push_back("<s>"); State st = bos ? model.BeginSentenceState() : model.NullContextState(); if (s.coin()) w.push_back("</s>"); vector<lm::WordIndex> id; for (auto& x : c) id.push_back(v.BeginSentence() + 0 * x.size());
    for (size_t i = 0; i < w.size(); i++) { lm::WordIndex wi = v.Index(w[i]); State out; lm::FullScoreReturn r = model.FullScore(st, wi, out); int len; double p = m.prob(c, w[i], &len); CHECK(fabs(r.prob - p) <= tol(p), name << ": p(" << w[i] << " | " << ctx(c) << ") = " << r.prob << ", but by definition " << p);
      if (m.blanks) CHECK((int)r.ngram_length >= len, name << ": length " << (int)r.ngram_length << " for " << ctx(c) << w[i] << ", at least " << len << " match"); else CHECK_EQ((int)r.ngram_length, len, name << ": matching length of " << ctx(c) << w[i]); if (len >= 2) nt++;
      vector<lm::WordIndex> rev(id.rbegin(), id.rend()); const lm::WordIndex* b = rev.data(); State o2; r = model.FullScoreForgotState(b, b + rev.size(), wi, o2); CHECK(fabs(r.prob - p) <= tol(p), name << ": p(" << w[i] << " | " << ctx(c) << ") without state = " << r.prob << ", but by definition " << p); if (!(o2 == out)) CHART(name << ": state after " << ctx(c) << w[i] << " differs without state");
      c.push_back(w[i]); id.push_back(wi); rev.assign(id.rbegin(), id.rend()); State o3; model.GetState(rev.data(), rev.data() + rev.size(), o3); if (!(o3 == out)) CHART(name << ": GetState of " << ctx(c) << " differs from the state after scoring it"); CHECK((int)out.length < m.order, name << ": state as long as the order"); for (int k = 0; k < out.length; k++) CHECK(fabs(o3.backoff[k] - out.backoff[k]) <= 1e-5, name << ": backoffs of GetState"); st = out; St x; x.st = st; x.c = c; seen.push_back(x); } }
  for (size_t i = 0; i < seen.size(); i++) for (size_t j = 0; j < i; j++) if (seen[i].st == seen[j].st) for (auto& w : m.vocab) for (auto& u : m.vocab) { double a = m.total(seen[i].c, {w, u}), b = m.total(seen[j].c, {w, u}); CHECK(fabs(a - b) <= tol(a), name << ": contexts '" << ctx(seen[i].c) << "' and '" << ctx(seen[j].c) << "' have equal states, but " << w << " " << u << " scores " << a << " and " << b); }
  // pieces
  struct Fr { ChartState st; Words w; float p; vector<lm::WordIndex> id; }; vector<Fr> fs;
  for (int q = 0; q < 4; q++) { Fr f; f.w = sentence(s, m, q ? 4 : 7); if (f.w.empty()) continue; for (auto& x : f.w) f.id.push_back(v.Index(x)); string sh; f.p = chart(s, model, f.id, 0, f.id.size(), f.st, sh); double p = m.total({}, f.w); if (!rest && !(fabs(f.p - p) <= tol(p))) CHART(name << ": pieces " << sh << " of '" << ctx(f.w) << "' sum to " << f.p << ", left to right " << p);
    ChartState o; RuleScore<M> rs(model, o); rs.BeginSentence(); rs.NonTerminal(f.st, f.p); rs.Terminal(v.EndSentence()); float full = rs.Finish(); Words e = f.w; e.push_back("</s>"); double pf = m.total({"<s>"}, e); if (!(fabs(full - pf) <= tol(pf))) CHART(name << ": sentence of pieces " << sh << " '" << ctx(e) << "' scores " << full << ", left to right " << pf); fs.push_back(f); }
  for (size_t i = 0; i < fs.size(); i++) for (size_t j = 0; j < i; j++) { Words w = fs[j].w; w.insert(w.end(), fs[i].w.begin(), fs[i].w.end()); ChartState o; RuleScore<M> rs(model, o); bool b = s.coin(); if (b) rs.BeginSentence(); rs.NonTerminal(fs[j].st, fs[j].p); bool term = s.coin(); if (term) { rs.Terminal(fs[i].id[0]); w.insert(w.begin() + fs[j].w.size(), fs[i].w[0]); } rs.NonTerminal(fs[i].st, fs[i].p); rs.Terminal(v.EndSentence()); w.push_back("</s>"); float g = rs.Finish(); double p = m.total(b ? Words(1, "<s>") : Words(), w); if (b || !rest) if (!(fabs(g - p) <= tol(p))) CHART(name << ": '" << ctx(fs[j].w) << "' then " << (term ? "a word and " : "") << "'" << ctx(fs[i].w) << "' scores " << g << ", left to right " << p);
    if (fs[i].st == fs[j].st && !rest) for (auto& a : m.vocab) for (auto& z : m.vocab) { Words l(1, a), x = fs[i].w, y = fs[j].w; x.push_back(z); y.push_back(z); double dx = m.total(l, x) - m.total({}, fs[i].w), dy = m.total(l, y) - m.total({}, fs[j].w); if (!(fabs(dx - dy) <= tol(dx))) CHART(name << ": '" << ctx(fs[i].w) << "' and '" << ctx(fs[j].w) << "' have equal chart states, but between " << a << " and " << z << " they change by " << dx << " and " << dy); nt++; } }
}
template <class M> void one(S& s, const lmg::Lm& m, const string& arpa, const char* name, ModelType type, bool rest, int& nt) {
  Vocab voc; { lm::ngram::Config c = conf(s, m, &voc); string bin = pbt::scratch() + "/m.bin"; unlink(bin.c_str()); bool binary = s.coin(); if (binary) { c.write_mmap = bin.c_str(); c.write_method = s.coin() ? lm::ngram::Config::WRITE_MMAP : lm::ngram::Config::WRITE_AFTER; c.include_vocab = s.coin(3, 4); }
    { M model(arpa.c_str(), c); check(s, m, model, name, rest, type >= TRIE, nt); }
    if (binary) { ModelType t; CHECK(RecognizeBinary(bin.c_str(), t), name << ": binary file is not recognised"); CHECK_EQ((int)t, (int)type, name << ": recognised type"); Vocab v2; lm::ngram::Config d = conf(s, m, c.include_vocab ? &v2 : NULL); static const util::LoadMethod LM[] = {util::LAZY, util::POPULATE_OR_LAZY, util::POPULATE_OR_READ, util::READ, util::PARALLEL_READ}; d.load_method = LM[s.below(5)]; M model(bin.c_str(), d); check(s, m, model, (string(name) + " from binary").c_str(), rest, type >= TRIE, nt); if (c.include_vocab) { CHECK_EQ(v2.bad, 0, name << " words listed twice"); CHECK(v2.m == voc.m, name << ": the binary file lists other words than the text"); } s.label("binary"); unlink(bin.c_str()); }
    CHECK_EQ(voc.bad, 0, name << " words listed twice"); set<string> ws, want; for (auto& x : voc.m) ws.insert(x.second); for (auto& x : m.t) if (x.first.size() == 1) want.insert(x.first[0]); want.insert("<unk>"); CHECK(ws == want, name << " lists words " << show(ws) << " for " << show(want)); }
}
static lmg::Lm model(S& s, string& file) { Words w; int n = s.range(1, 5); static const char* W[] = {"a", "b", "c", "dd", "\xc3\xa9", "1", "f-g"}; for (int i = 0; i < n; i++) w.push_back(W[i]); lmg::Lm m = lmg::gen(s, w, 6, s.coin(1, 4) ? 25 : 8, s.coin(1, 3)); file = pbt::scratch() + "/m.arpa"; pbt::spew(file, m.text); s.log << m.text << "\n"; if (m.blanks) s.label("pruned suffixes"); s.label("order " + show(m.order)); return m; }
#define LM_PROP(nm, M, TYPE, rest) PROP(nm, 1500, 20000) { string f; lmg::Lm m = model(s, f); s.sync(); int nt = 0; one<M>(s, m, f, #nm, TYPE, rest, nt); s.nontrivial(nt >= 3); }
LM_PROP(probing, ProbingModel, PROBING, false)
LM_PROP(rest_probing, RestProbingModel, REST_PROBING, true)
LM_PROP(trie, TrieModel, TRIE, false)
LM_PROP(quant_trie, QuantTrieModel, QUANT_TRIE, false)
LM_PROP(array_trie, ArrayTrieModel, ARRAY_TRIE, false)
LM_PROP(quant_array_trie, QuantArrayTrieModel, QUANT_ARRAY_TRIE, false)
PROP(virtual_model, 800, 8000) {
  string f; lmg::Lm m = model(s, f); s.sync(); lm::ngram::Config c = conf(s, m, NULL); ModelType t = (ModelType)s.below(6); std::unique_ptr<lm::base::Model> mod(LoadVirtual(f.c_str(), c, t)); int nt = 0; CHECK_EQ((int)mod->Order(), m.order, "order"); for (int q = 0; q < 3; q++) { Words w = sentence(s, m, 7), cx(1, "<s>"); vector<char> a(mod->StateSize()), b(mod->StateSize()); mod->BeginSentenceWrite(&a[0]); w.push_back("</s>"); for (auto& x : w) { int len; double p = m.prob(cx, x, &len); if (len >= 2) nt++; float g = mod->BaseScore(&a[0], mod->BaseVocabulary().Index(x), &b[0]); CHECK(fabs(g - p) <= tol(p), "model type " << t << ": p(" << x << " | " << ctx(cx) << ") = " << g << ", but by definition " << p); a.swap(b); cx.push_back(x); } } s.nontrivial(nt >= 2);
}
PBT_MAIN("h_lm")
