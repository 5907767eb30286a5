#pragma once
// Strict readers written from the formats' descriptions: what a text must, may or must not be read as.
#include <optional>

#include "io_ref.h"

namespace ior {

enum class Must { REJECT, ACCEPT, EITHER };
struct Expect {
  Must must{Must::REJECT};
  std::optional<Mesh> mesh;  // what an accepting reader must have read
  const char* why = "";
};

inline std::vector<std::string> lines_of(const std::string& t) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : t) {
    if (c == '\n') {
      r.push_back(cur);
      cur.clear();
    } else {
      cur += c;
    }
  }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
inline bool is_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
inline std::vector<std::string> tokens_of(const std::string& l) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : l) {
    if (is_space(c)) {
      if (!cur.empty()) r.push_back(cur);
      cur.clear();
    } else {
      cur += c;
    }
  }
  if (!cur.empty()) r.push_back(cur);
  return r;
}

enum class Num { GOOD, BAD, ODD };

inline Num number(const std::string& t, double& v) {
  std::size_t i = 0;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
  if (i == 1 && t[0] == '+' && i < t.size() && (t[1] == '-' || t[1] == '+')) return Num::ODD;
  auto digits = [&] {
    auto a = i;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
    return i - a;
  };
  auto n = digits();
  if (i < t.size() && t[i] == '.') {
    ++i;
    n += digits();
  }
  if (n == 0) return Num::BAD;
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
    ++i;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
    if (digits() == 0) return Num::BAD;
  }
  if (i != t.size()) return Num::BAD;
  v = std::strtod(t.c_str(), nullptr);
  return std::isfinite(v) ? Num::GOOD : Num::BAD;
}

// An integer at the start of the token; rest: what follows it.
inline Num integer(const std::string& t, long long& v, std::string& rest) {
  std::size_t i = 0;
  bool neg = false;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
  auto a = i;
  __int128 x = 0;
  bool big = false;
  while (i < t.size() && t[i] >= '0' && t[i] <= '9') {
    x = x * 10 + (t[i++] - '0');
    if (x > (__int128(1) << 70)) {
      big = true;
      x = __int128(1) << 71;
    }
  }
  if (i == a) return Num::BAD;
  rest = t.substr(i);
  if (neg) x = -x;
  if (big || x > INT64_MAX || x < -__int128(INT64_MAX)) {
    v = neg ? INT64_MIN : INT64_MAX;
    return Num::GOOD;
  }
  v = static_cast<long long>(x);
  return Num::GOOD;
}

struct Judge {
  Expect e;
  bool odd = false;       // something questionable: either answer will do
  bool unclear = false;   // and so will any mesh
  Mesh m;
  Expect reject(const char* why) {
    e.why = why;
    e.must = unclear ? Must::EITHER : Must::REJECT;
    return e;
  }
  Expect done() {
    bool ok = true;
    for (auto& f : m.f)
      for (auto v : f) ok = ok && v < m.p.size();
    if (!ok) return reject("a vertex that does not exist");
    e.must = odd || unclear ? Must::EITHER : Must::ACCEPT;
    if (!unclear) e.mesh = m;
    return e;
  }
  // Reads three coordinates from tokens at[0..2]; false: must reject.
  bool point(const std::vector<std::string>& t, std::array<std::size_t, 3> at) {
    std::array<double, 3> p{};
    for (int k = 0; k < 3; ++k) {
      if (at[k] >= t.size()) return false;
      auto n = number(t[at[k]], p[k]);
      if (n == Num::ODD) unclear = true;
      if (n == Num::BAD) return false;
    }
    m.p.push_back(p);
    return true;
  }
};

inline Expect judge_obj(const std::string& text) {
  Judge j;
  auto ls = lines_of(text);
  for (std::size_t i = 0; i < ls.size(); ++i) {
    auto l = ls[i];
    auto t = tokens_of(l);
    if (t.empty() || t[0][0] == '#') continue;
    auto ends = [&] { return !l.empty() && (l.back() == '\\' || (l.size() > 1 && l.back() == '\r' && l[l.size() - 2] == '\\')); };
    while (ends()) {
      if (l.find('#') != std::string::npos) j.unclear = true;
      l.resize(l.rfind('\\'));
      if (i + 1 < ls.size()) l += ls[++i];
      else j.odd = true;
    }
    t = tokens_of(l);
    if (t.empty() || t[0][0] == '#') continue;
    static const std::set<std::string> known{"v", "f", "vn", "vt", "vp", "g", "o", "s", "usemtl", "mtllib", "p", "l"};
    if (!known.count(t[0])) j.odd = true;
    if (t[0] == "v") {
      if (!j.point(t, {1, 2, 3})) return j.reject("an invalid vertex");
    } else if (t[0] == "f") {
      std::vector<std::size_t> f;
      for (std::size_t k = 1; k < t.size(); ++k) {
        if (t[k][0] == '#') break;
        long long v{};
        std::string rest;
        if (integer(t[k], v, rest) != Num::GOOD) return j.reject("an invalid index");
        if (!rest.empty() && rest[0] != '/') j.unclear = true;
        if (!rest.empty() && rest.find_first_not_of("/0123456789-") != std::string::npos) j.odd = true;
        if (rest == "/" || rest == "//" || (rest.size() > 1 && rest.back() == '/')) j.odd = true;
        auto n = static_cast<long long>(j.m.p.size());
        if (v == 0) return j.reject("index zero");
        if (v < 0 && (v == INT64_MIN || v + n < 0)) return j.reject("an index before the first vertex");
        f.push_back(static_cast<std::size_t>(v > 0 ? v - 1 : v + n));
      }
      if (f.size() < 3) return j.reject("a face with fewer than three vertices");
      j.m.polygon(f);
    }
  }
  return j.done();
}

// Two numbers without space between them ("0+2"): a reader may take them apart.
inline bool run_together(const std::string& t) {
  for (std::size_t i = 0; i + 1 < t.size(); ++i)
    if (((t[i] >= '0' && t[i] <= '9') || t[i] == '.') && (t[i + 1] == '+' || t[i + 1] == '-')) return true;
  return false;
}

inline Expect judge_off(const std::string& text) {
  Judge j;
  if (run_together(text)) j.unclear = true;
  std::vector<std::vector<std::string>> ls;
  for (auto& l : lines_of(text)) {
    auto t = tokens_of(l);
    if (t.empty() || t[0][0] == '#') continue;
    ls.push_back(t);
  }
  if (ls.empty()) return j.reject("no header");
  static const std::set<std::string> heads{"OFF", "COFF", "NOFF", "CNOFF", "STOFF", "STCOFF", "STNOFF", "STCNOFF"};
  if (!heads.count(ls[0][0])) {
    if (ls[0][0].find("OFF#") != std::string::npos) j.unclear = true;
    return j.reject("not OFF");
  }
  if (ls[0].size() > 1 && ls[0][1][0] != '#') {
    if (ls[0][1] == "BINARY") return j.reject("binary");
    return j.reject("an invalid header");
  }
  if (ls.size() < 2) return j.reject("no counts");
  auto natural = [&](const std::string& t, long long& v) {
    std::string rest;
    if (integer(t, v, rest) != Num::GOOD) return false;
    if (t[0] == '+') j.odd = true;
    if (t[0] == '-') {
      if (v == 0) j.odd = true;
      else return false;
    }
    if (!rest.empty()) j.unclear = true;
    return true;
  };
  long long nv{}, nf{};
  if (ls[1].size() < 2 || !natural(ls[1][0], nv) || !natural(ls[1][1], nf)) return j.reject("invalid counts");
  if (ls[1].size() < 3 || ls[1][2][0] == '#') j.odd = true;  // the number of edges is missing
  auto lines = static_cast<long long>(ls.size()) - 2;
  if (nv > lines || nf > lines || nv + nf > lines) return j.reject("too short");
  if (nv + nf < lines) return j.reject("too long");
  for (long long i = 0; i < nv; ++i)
    if (!j.point(ls[2 + i], {0, 1, 2})) return j.reject("an invalid vertex");
  for (long long i = 0; i < nf; ++i) {
    auto& t = ls[2 + nv + i];
    long long n{};
    if (!natural(t[0], n)) return j.reject("an invalid face");
    if (n > static_cast<long long>(t.size()) - 1) return j.reject("a face without its vertices");
    if (n < 3) j.odd = true;
    std::vector<std::size_t> f;
    for (long long k = 0; k < n; ++k) {
      long long v{};
      if (!natural(t[1 + k], v)) {
        if (n < 3) j.unclear = true;
        return j.reject("an invalid index");
      }
      f.push_back(static_cast<std::size_t>(v));
    }
    j.m.polygon(f);
  }
  return j.done();
}

inline Expect judge_ply(const std::string& text) {
  Judge j;
  if (run_together(text)) j.unclear = true;
  auto ls = lines_of(text);
  struct Prop {
    bool list;
    std::string name;
  };
  struct Elem {
    std::string name;
    long long n;
    std::vector<Prop> props;
  };
  std::vector<Elem> es;
  std::size_t i = 0;
  int state = 0;
  static const std::set<std::string> types{"char", "uchar", "short", "ushort", "int", "uint", "float", "double", "int8", "uint8", "int16", "uint16", "int32", "uint32", "float32", "float64"};
  for (; i < ls.size() && state < 3; ++i) {
    auto t = tokens_of(ls[i]);
    if (t.empty()) continue;
    if (t[0] == "comment") continue;
    if (t[0] == "obj_info") j.unclear = true;
    if (state == 0) {
      if (t.size() != 1 || t[0] != "ply") return j.reject("not PLY");
      state = 1;
    } else if (state == 1) {
      if (t != std::vector<std::string>{"format", "ascii", "1.0"}) return j.reject("an unsupported format");
      state = 2;
    } else if (t[0] == "element") {
      long long n{};
      std::string rest;
      if (t.size() != 3 || integer(t[2], n, rest) != Num::GOOD || !rest.empty() || n < 0) return j.reject("an invalid element");
      if (t[2][0] == '+' || t[2][0] == '-') j.odd = true;
      es.push_back({t[1], n, {}});
    } else if (t[0] == "property") {
      if (es.empty()) return j.reject("a property of nothing");
      bool list = t.size() > 1 && t[1] == "list";
      if (t.size() != (list ? 5U : 3U)) return j.reject("an invalid property");
      for (std::size_t k = list ? 2 : 1; k + 1 < t.size(); ++k)
        if (!types.count(t[k])) j.odd = true;
      es.back().props.push_back({list, t.back()});
    } else if (t[0] == "end_header") {
      if (t.size() > 1) j.odd = true;
      state = 3;
    } else {
      return j.reject("an invalid header line");
    }
  }
  if (state < 3) return j.reject("no end of the header");
  int vi = -1, fi = -1;
  for (std::size_t k = 0; k < es.size(); ++k) {
    if (es[k].name == "vertex") {
      if (vi >= 0) j.unclear = true;
      else vi = static_cast<int>(k);
    }
    if (es[k].name == "face") {
      if (fi >= 0) j.unclear = true;
      else fi = static_cast<int>(k);
    }
  }
  if (vi < 0 || fi < 0) return j.reject("no vertices or faces");
  int at[3] = {-1, -1, -1}, li = -1;
  for (std::size_t k = 0; k < es[vi].props.size(); ++k)
    for (int c = 0; c < 3; ++c)
      if (!es[vi].props[k].list && es[vi].props[k].name == std::string(1, static_cast<char>('x' + c))) {
        if (at[c] >= 0) j.unclear = true;
        else at[c] = static_cast<int>(k);
      }
  for (std::size_t k = 0; k < es[fi].props.size(); ++k)
    if (es[fi].props[k].list && (es[fi].props[k].name == "vertex_index" || es[fi].props[k].name == "vertex_indices")) {
      if (li >= 0) j.unclear = true;
      else li = static_cast<int>(k);
    }
  if (at[0] < 0 || at[1] < 0 || at[2] < 0 || li < 0) return j.reject("no coordinates or indices");
  std::size_t e = 0;
  long long done = 0;
  auto skip = [&] {
    while (e < es.size() && done >= es[e].n) {
      ++e;
      done = 0;
    }
  };
  skip();
  for (; i < ls.size(); ++i) {
    auto t = tokens_of(ls[i]);
    if (e == es.size() ? t.empty() : t.empty() && !es[e].props.empty()) continue;
    if (e == es.size()) return j.reject("too long");
    std::size_t k = 0;
    std::vector<std::size_t> f;
    std::array<std::size_t, 3> where{};
    bool other = static_cast<int>(e) != vi && static_cast<int>(e) != fi;  // its lines need not be looked at
    if (other) {
      ++done;
      skip();
      continue;
    }
    for (std::size_t q = 0; q < es[e].props.size(); ++q) {
      auto& p = es[e].props[q];
      if (k >= t.size()) return j.reject("a short line");
      if (!p.list) {
        if (static_cast<int>(e) == vi)
          for (int c = 0; c < 3; ++c)
            if (at[c] == static_cast<int>(q)) where[c] = k;
        ++k;
        continue;
      }
      long long n{};
      std::string rest;
      if (integer(t[k], n, rest) != Num::GOOD || n < 0) return j.reject("an invalid list");
      if (t[k][0] == '+' || t[k][0] == '-') j.odd = true;
      if (!rest.empty()) {
        j.unclear = true;
        return j.done();
      }
      ++k;
      if (n > static_cast<long long>(t.size()) || k + n > t.size()) return j.reject("a short list");
      bool idx = static_cast<int>(e) == fi && li == static_cast<int>(q);
      if (idx && n < 3) j.odd = true;
      for (long long x = 0; x < n; ++x, ++k)
        if (idx) {
          long long v{};
          if (integer(t[k], v, rest) != Num::GOOD || (v < 0)) {
            if (n < 3) j.unclear = true;
            return j.reject("an invalid index");
          }
          if (t[k][0] == '+' || t[k][0] == '-') j.odd = true;
          if (!rest.empty()) {
            j.unclear = true;
            return j.done();
          }
          f.push_back(static_cast<std::size_t>(v));
        }
    }
    if (k < t.size()) j.odd = true;
    if (static_cast<int>(e) == vi && !j.point(t, where)) return j.reject("an invalid vertex");
    if (static_cast<int>(e) == fi) j.m.polygon(f);
    ++done;
    skip();
  }
  if (e < es.size()) return j.reject("too short");
  return j.done();
}

inline Expect judge(int f, const std::string& t) { return f == OBJ ? judge_obj(t) : f == OFF ? judge_off(t) : judge_ply(t); }

}  // namespace ior
