// Tiny corpora for the extractor checks: files, data arrays, enumeration.
#ifndef CORPUS_H_
#define CORPUS_H_
#include "vc.h"
#include <memory>
#include <functional>
#include "data_array.h"
#include "suffix_array.h"
#include "phrase_location.h"
#include "matchings_finder.h"
#include "vocabulary.h"
struct Corpus {
  typedef std::vector<std::vector<std::string>> Sents;
  static std::string text(const Sents& s) { std::string o; for (auto& l : s) { for (size_t i = 0; i < l.size(); ++i) o += (i ? " " : "") + l[i]; o += "\n"; } return o; }
  static std::string put(const std::string& file, const std::string& t) { std::ofstream o(file.c_str(), std::ios::binary); o << t; o.close(); return file; }
  // the flat view: words with "\n" for the end of a line
  static std::vector<std::string> flat(const Sents& s) { std::vector<std::string> f; for (auto& l : s) { for (auto& w : l) f.push_back(w); f.push_back("\n"); } return f; }
  static std::shared_ptr<extractor::DataArray> data(const std::string& dir, const Sents& s, const char* name = "corpus") { return std::make_shared<extractor::DataArray>(put(dir + "/" + name, text(s))); }
  // all sequences of length n over words[0..k) and the line break, ending in a line break
  static void each(int n, int k, const std::function<void(const Sents&)>& f) {
    static const char* W[] = {"a", "b", "c", "d"};
    uint64_t tot = 1; for (int i = 0; i + 1 < n; ++i) tot *= k + 1;
    for (uint64_t m = 0; m < tot; ++m) { Sents s(1); uint64_t q = m; for (int i = 0; i + 1 < n; ++i) { int d = q % (k + 1); q /= (k + 1); if (d == k) s.push_back({}); else s.back().push_back(W[d]); } f(s); }
  }
};
// every choice of rand() under the harness's control
struct Choice {
  static std::vector<int>& plan() { static std::vector<int> p; return p; }
  static int& at() { static int a = 0; return a; }
  static int& policy() { static int a = 0; return a; }
  static int next() { int i = at()++; if (i < (int)plan().size() && plan()[i] >= 0) return plan()[i]; switch (policy()) { case 0: return 0; case 1: return 0x7fffffff / 5040 * 5040 - 1; case 2: return i; default: return 3 * i + 1; } }
};
#endif
