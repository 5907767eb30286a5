// C14: malformed input is rejected cleanly and changes nothing.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <malloc.h>

#include <atomic>
#include <new>

#include "../io_parse.h"
#include "../zoo.h"

using namespace ior;

// Memory in use by the code under test.
static std::atomic<std::size_t> g_live{0}, g_peak{0};
static void account(void* p) {
  auto n = g_live += malloc_usable_size(p);
  if (n > g_peak) g_peak = n;
}
void* operator new(std::size_t n) {
  if (n > (std::size_t{3} << 30)) {
    g_peak = n;
    throw std::bad_alloc{};
  }
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc{};
  account(p);
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  if (p) g_live -= malloc_usable_size(p);
  std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

namespace {

constexpr std::size_t memory_limit = std::size_t{64} << 20;

std::string exact_text(const Soup& s) {
  std::ostringstream o;
  for (auto v : s.vertices()) {
    auto& p = s.point(v).exact();
    o << p.x() << " " << p.y() << " " << p.z() << "\n";
  }
  for (auto f : s.faces()) {
    for (auto v : s.face(f)) o << v.idx() << " ";
    o << s.data(f) << "\n";
  }
  return o.str();
}
std::string exact_text(const Region& r) { return (r.is_empty() ? "E" : r.is_full() ? "F" : "B") + exact_text(r.boundary()); }

const Mesh old_mesh{{{9, 9, 9}, {8, 8, 8}, {7, 7, 9}}, {{0, 1, 2}}};

void try_text(int f, const std::string& t, kmc::Ctx& ctx) {
  auto e = judge(f, t);
  ctx.count("inputs");
  ctx.count(e.must == Must::ACCEPT ? "still-valid" : e.must == Must::REJECT ? "invalid" : "either");
  if (e.must == Must::REJECT) {
    ctx.count("nontrivial");
    ctx.outcome(std::string(ext(f)) + e.why);
  }
  static const auto before = exact_text(soup_of(old_mesh));
  Soup s = soup_of(old_mesh);
  bool ok = false, threw = false;
  g_peak = g_live.load();
  auto base = g_live.load();
  try {
    std::istringstream is{t};
    ok = read(f, is, s);
  } catch (const std::runtime_error& x) {
    threw = true;
  } catch (const std::exception& x) {
    ctx.fail("exception", std::string("threw ") + x.what() + ":\n" + show(t));
    return;
  }
  if (g_peak - base > memory_limit) ctx.fail("memory", "takes " + std::to_string((g_peak - base) >> 20) + " MB:\n" + show(t));
  if (!ok) {
    if (e.must == Must::ACCEPT) ctx.fail("rejects", "a valid file is rejected:\n" + show(t));
    if (exact_text(s) != before) ctx.fail("changed", "the target has changed although reading failed:\n" + show(t));
    return;
  }
  if (e.must == Must::REJECT) {
    ctx.fail("accepts", std::string("accepted although it has ") + e.why + ":\n" + show(t));
    return;
  }
  auto u = unusable(s);
  if (!u.empty()) ctx.fail("unusable", u + ":\n" + show(t));
  if (e.mesh) {
    auto d = differs(s, *e.mesh);
    if (!d.empty()) ctx.fail("misread", d + ":\n" + show(t));
  }
}

// --- the binary format ------------------------------------------------------------------------------

struct Bin {
  const std::string& t;
  std::size_t at = 0;
  bool ok = true;
  template <class T>
  T get() {
    T v{};
    if (at + sizeof(T) > t.size()) {
      ok = false;
      return v;
    }
    std::memcpy(&v, t.data() + at, sizeof(T));
    at += sizeof(T);
    return v;
  }
};

struct Expect_region {
  Must must = Must::REJECT;
  const char* why = "";
  std::string text;
  bool has_text = false;
};

Expect_region judge_binary(const std::string& t) {
  Bin b{t};
  Expect_region e;
  auto rej = [&](const char* w) {
    e.why = w;
    e.must = Must::REJECT;
    return e;
  };
  bool odd = false;
  auto kind = b.get<std::uint8_t>();
  if (!b.ok || kind > 2) return rej("an invalid kind");
  auto nv = b.get<std::int32_t>();
  auto nf = b.get<std::int32_t>();
  if (!b.ok || nv < 0 || nf < 0) return rej("invalid counts");
  if (kind != 2 && nf > 0) odd = true;
  std::vector<std::array<mpq_class, 3>> ps;
  for (int i = 0; i < nv; ++i) {
    auto flag = b.get<std::uint8_t>();
    if (!b.ok) return rej("missing data");
    if (flag > 1) odd = true;
    std::array<mpq_class, 3> p;
    for (int k = 0; k < 3; ++k) {
      if (flag == 0) {
        auto d = b.get<double>();
        if (!b.ok) return rej("missing data");
        if (!std::isfinite(d)) return rej("a coordinate that is not finite");
        p[k] = d;
      } else {
        auto neg = b.get<std::uint8_t>();
        mpz_class z[2];
        for (auto& x : z) {
          auto n = b.get<std::int32_t>();
          if (!b.ok) return rej("missing data");
          if (n < 0) return rej("a negative length");
          if (b.at + n > t.size()) return rej("missing data");
          for (int q = 0; q < n; ++q) x = x * 256 + static_cast<unsigned char>(t[b.at++]);
        }
        if (neg > 1) odd = true;
        if (z[1] == 0) return rej("a zero denominator");
        p[k] = mpq_class{z[0], z[1]};
        p[k].canonicalize();
        if (neg) p[k] = -p[k];
      }
    }
    ps.push_back(p);
  }
  std::ostringstream o;
  o << (kind == 0 ? "E" : kind == 1 ? "F" : "B");
  for (auto& p : ps) o << p[0] << " " << p[1] << " " << p[2] << "\n";
  for (int i = 0; i < nf; ++i) {
    for (int k = 0; k < 3; ++k) {
      auto v = b.get<std::int32_t>();
      if (!b.ok) return rej("missing data");
      if (v < 0 || v >= nv) return rej("a vertex that does not exist");
      o << v << " ";
    }
    auto d = b.get<int>();
    if (!b.ok) return rej("missing data");
    o << d << "\n";
  }
  if (kind == 2 && nf == 0) return rej("a boundary without faces");
  if (b.at < t.size()) odd = true;
  e.must = odd ? Must::EITHER : Must::ACCEPT;
  e.text = o.str();
  e.has_text = true;
  return e;
}

void try_binary(const std::string& t, int target, kmc::Ctx& ctx) {
  auto e = judge_binary(t);
  ctx.count("inputs");
  ctx.count(e.must == Must::ACCEPT ? "still-valid" : e.must == Must::REJECT ? "invalid" : "either");
  if (e.must == Must::REJECT) {
    ctx.count("nontrivial");
    ctx.outcome(std::string("kigumi") + e.why);
  }
  auto r = target == 0 ? Region::empty() : target == 1 ? Region::full() : Region{soup_of(old_mesh)};
  auto before = exact_text(r);
  bool ok = false;
  g_peak = g_live.load();
  auto base = g_live.load();
  try {
    std::istringstream is{t};
    ok = kigumi::read_kigumi_region(is, r);
  } catch (const std::runtime_error& x) {
  } catch (const std::exception& x) {
    ctx.fail("exception", std::string("threw ") + x.what() + ":\n" + show(t));
    return;
  }
  if (g_peak - base > memory_limit) ctx.fail("memory", "takes " + std::to_string((g_peak - base) >> 20) + " MB:\n" + show(t));
  if (!ok) {
    if (e.must == Must::ACCEPT) ctx.fail("rejects", "valid data are rejected:\n" + show(t));
    if (exact_text(r) != before) ctx.fail("changed", "the target has changed although reading failed:\n" + show(t));
    return;
  }
  if (e.must == Must::REJECT) {
    ctx.fail("accepts", std::string("accepted although it has ") + e.why + ":\n" + show(t));
    return;
  }
  auto u = unusable(r.boundary());
  if (!u.empty()) ctx.fail("unusable", u);
  if (e.has_text && exact_text(r) != e.text) ctx.fail("misread", "read as something else:\n" + show(t));
}

// --- mutations ---------------------------------------------------------------------------------------

const std::vector<std::string>& token_alphabet() {
  static const std::vector<std::string> a{
      "",     "-1",  "0",   "1",    "2",     "3",      "4",          "5",          "99", "-2",  "-99", "+1", "00", "4294967295", "4294967296", "18446744073709551615", "18446744073709551614", "9223372036854775807",
      "-9223372036854775808", "9223372036854775808", "99999999999999999999999", "-99999999999999999999999", "2147483648", "-2147483648", "1000000000000", "nan", "-nan", "inf", "-INF", "infinity", "1e999", "-1e999", "1e-999", "1e",
      "0x10", "abc", "3.5", "1.5.2", "-",    "+",      ".",          "1/",         "1//", "/",  "//1", "1/2/3/4", "#",  "1#",  "OFF", "v",  "f",  "ply",        "ascii",      "2.0",                  "list",                 "vertex", "face", "x",
      "vertex_index", "property", "element", "end_header", "\\", "BINARY", "\x01", "\xff", "1 1", "\n", "1\n1", "1,5"};
  return a;
}
const std::string& char_alphabet() {
  static const std::string a = std::string("0129-+.e/#\\\n\r \t\vxfvnlpO,") + std::string("\0\xff\x80", 3);
  return a;
}

// All mutations of the text with one edit, by number.
struct Mutator {
  std::string t;
  std::vector<std::pair<std::size_t, std::size_t>> tok;
  std::vector<std::pair<std::size_t, std::size_t>> ln;
  explicit Mutator(std::string s) : t{std::move(s)} {
    for (std::size_t i = 0; i < t.size();) {
      if (is_space(t[i])) {
        ++i;
        continue;
      }
      auto a = i;
      while (i < t.size() && !is_space(t[i])) ++i;
      tok.emplace_back(a, i);
    }
    for (std::size_t i = 0; i < t.size();) {
      auto a = i;
      while (i < t.size() && t[i] != '\n') ++i;
      if (i < t.size()) ++i;
      ln.emplace_back(a, i);
    }
  }
  void each(int cls, const std::function<void(const std::string&)>& go) const {
    auto& ca = char_alphabet();
    switch (cls) {
      case 0:
        for (std::size_t i = 0; i <= t.size(); ++i) go(t.substr(0, i));
        for (std::size_t i = 1; i < t.size(); ++i) go(t.substr(i));
        break;
      case 1:
        for (std::size_t i = 0; i < t.size(); ++i)
          for (char c : ca) {
            auto s = t;
            s[i] = c;
            go(s);
          }
        break;
      case 2:
        for (std::size_t i = 0; i < t.size(); ++i) {
          go(t.substr(0, i) + t.substr(i + 1));
          go(t.substr(0, i) + t[i] + t.substr(i));
          if (i + 1 < t.size()) go(t.substr(0, i) + t[i + 1] + t[i] + t.substr(i + 2));
        }
        break;
      case 3:
        for (std::size_t i = 0; i <= t.size(); ++i)
          for (char c : ca) go(t.substr(0, i) + c + t.substr(i));
        break;
      case 4:
        for (auto [a, b] : tok)
          for (auto& x : token_alphabet()) go(t.substr(0, a) + x + t.substr(b));
        break;
      case 5:
        for (auto [a, b] : ln) {
          go(t.substr(0, a) + t.substr(b));
          go(t.substr(0, b) + t.substr(a));
        }
        for (auto [a, b] : ln)
          for (auto [c, d] : ln)
            if (b <= c) go(t.substr(0, a) + t.substr(c, d - c) + t.substr(b, c - b) + t.substr(a, b - a) + t.substr(d));
        break;
      case 6:
        for (auto [a, b] : tok)
          for (auto [c, d] : tok) {
            if (b <= c) go(t.substr(0, a) + t.substr(c, d - c) + t.substr(b, c - b) + t.substr(a, b - a) + t.substr(d));
            go(t.substr(0, b) + " " + t.substr(c, d - c) + t.substr(b));
          }
        break;
    }
  }
  static constexpr int classes = 7;
};

std::vector<std::pair<int, std::string>> seeds() {
  return {
      {OBJ, "v 0 0 0\nv 1.5 0 0\nv 0 1 0\nv 0 0 -1e-3\nf 1 3 2\nf 1 2 4\nf -1 -2 -4\n"},
      {OBJ, "# t\nv 0 0 0\nvn 0 0 1\nv 1 0 0\nv 1 1 0\ng x\nv 0 1 0\nf 1/1/1 2/2 3//1 \\\n4 # q\n"},
      {OFF, "OFF\n4 3 0\n0 0 0\n1.5 0 0\n0 1 0\n0 0 -1e-3\n3 0 2 1\n3 0 1 3\n4 0 1 2 3\n"},
      {OFF, "# t\nCOFF # h\n\n3 1 3\n0 0 0 255 0 0 1\n1 0 0 0 0 0 0\n0 1 0 1 1 1 1 # v\n3 0 1 2 9 9 9\n# e\n"},
      {PLY, "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 2\nproperty list uchar int vertex_index\nend_header\n0 0 0\n1.5 0 0\n0 1 -1e-3\n3 0 1 2\n3 2 1 0\n"},
      {PLY,
       "ply\nformat ascii 1.0\ncomment c\nelement face 1\nproperty list uchar int vertex_indices\nproperty uchar red\nelement edge 1\nproperty int a\nelement vertex 4\nproperty list int int l\n"
       "property double z\nproperty double x\nproperty double y\nend_header\n4 0 1 2 3 255\n7\n2 5 6 0 0 0\n0 0 1 0\n1 9 0 1 1\n0 0 0 1\n"},
      {OFF, "OFF\n0 0 0\n"},
      {OFF, "OFF\n1 0 0\n1 2 3\n"},
      {PLY, "ply\nformat ascii 1.0\nelement vertex 0\nproperty float x\nproperty float y\nproperty float z\nelement face 0\nproperty list uchar int vertex_index\nend_header\n"},
  };
}

std::vector<std::string> binary_seeds() {
  std::vector<std::string> r;
  auto w = [&](const Region& x) {
    std::ostringstream o;
    kigumi::write_kigumi_region(o, x);
    r.push_back(o.str());
  };
  w(Region{soup_of(Mesh{{{0, 0, 0}, {1.5, 0, 0}, {0, 1, -1e-3}}, {{0, 1, 2}, {2, 1, 0}}})});
  {
    K::FT third = K::FT(1) / K::FT(3), big = K::FT(-1000003) / K::FT(77777777);
    Soup s;
    s.add_vertex({third, big, 0});
    s.add_vertex({1, 2, 3});
    s.add_vertex({third, 0, 1});
    s.data(s.add_face({Vertex_index{0}, Vertex_index{1}, Vertex_index{2}})) = -7;
    w(Region{s});
  }
  w(Region::empty());
  w(Region::full());
  w(geom::region_of(geom::tet({0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}), 5));
  return r;
}

void mutate_binary(const std::string& t, int cls, const std::function<void(const std::string&)>& go) {
  auto put = [&](std::size_t i, auto v) {
    if (i + sizeof v > t.size()) return;
    auto s = t;
    std::memcpy(s.data() + i, &v, sizeof v);
    go(s);
  };
  switch (cls) {
    case 0:
      for (std::size_t i = 0; i <= t.size(); ++i) go(t.substr(0, i));
      for (std::size_t i = 1; i < t.size(); ++i) go(t.substr(i));
      for (int n : {1, 4, 100}) go(t + std::string(n, '\0'));
      break;
    case 1:
      for (std::size_t i = 0; i < t.size(); ++i)
        for (int c = 0; c < 256; ++c) {
          auto s = t;
          s[i] = static_cast<char>(c);
          go(s);
        }
      break;
    case 2:
      for (std::size_t i = 0; i < t.size(); ++i) {
        go(t.substr(0, i) + t.substr(i + 1));
        for (int c : {0, 1, 2, 255}) go(t.substr(0, i) + static_cast<char>(c) + t.substr(i));
      }
      break;
    case 3:
      for (std::size_t i = 0; i < t.size(); ++i)
        for (std::int32_t v : {-1, 0, 1, 2, 3, 4, 255, 65536, 100000000, 0x7ffffffe, 0x7fffffff, int(0x80000000), int(0xfffffffe)}) put(i, v);
      break;
    case 4:
      for (std::size_t i = 0; i < t.size(); ++i)
        for (double v : {double(NAN), double(INFINITY), -double(INFINITY), -double(NAN), 5e-324, 1.7976931348623157e308, -0.0}) put(i, v);
      break;
    case 5:  // one count of each kind with missing data behind it
      for (std::size_t i = 0; i < t.size(); ++i)
        for (std::int32_t v : {1000, 1000000, 0x7fffffff}) {
          auto s = t.substr(0, i) + std::string(reinterpret_cast<const char*>(&v), 4);
          go(s);
          go(s + std::string(10, '\1'));
        }
      break;
  }
}
constexpr int binary_classes = 6;

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C14";
  c.rule =
      "an evaluation is one mutated input, read into a target that already holds something; a strict reader of the harness says "
      "whether it is still valid, and as what; rejected input must leave the target as it was, accepted input must be exactly "
      "what it denotes; memory beyond 64 MB, any exception that is no std::runtime_error, a crash or a hang is a failure; "
      "non-trivial: invalid inputs";
  c.assumptions = {"every truncation, every one-byte edit from the stated alphabets, every token substitution from the alphabet, line and token swaps of the seed files (thorough: pairs of token substitutions)"};
  c.evaluations_counter = "inputs";
  auto sd = std::make_shared<std::vector<std::pair<int, std::string>>>(seeds());
  for (std::size_t i = 0; i < sd->size(); ++i) {
    kmc::Space s;
    s.name = std::string(ext((*sd)[i].first) + 1) + std::to_string(i);
    // Chunks of 256 mutations.
    auto all = std::make_shared<std::vector<std::string>>();
    auto index = std::make_shared<std::vector<std::size_t>>();
    auto m = std::make_shared<Mutator>((*sd)[i].second);
    std::size_t n = 0;
    for (int k = 0; k < Mutator::classes; ++k) {
      std::size_t here = 0;
      m->each(k, [&](const std::string&) { ++here; });
      index->push_back(here);
      n += (here + 255) / 256;
    }
    s.size = n;
    auto run = [=](std::uint64_t id, const std::function<void(const std::string&)>& go) {
      for (int k = 0; k < Mutator::classes; ++k) {
        auto chunks = ((*index)[k] + 255) / 256;
        if (id < chunks) {
          std::size_t at = 0;
          m->each(k, [&](const std::string& x) {
            if (at++ / 256 == id) go(x);
          });
          return;
        }
        id -= chunks;
      }
    };
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      run(id, [&](const std::string& x) { try_text((*sd)[i].first, x, ctx); });
    };
    s.describe = [=](std::uint64_t id) {
      std::string first;
      run(id, [&](const std::string& x) {
        if (first.empty()) first = "mutations starting with:\n" + show(x);
      });
      return first;
    };
    s.case_timeout_s = 30;
    c.spaces.push_back(s);
    // Pairs of token substitutions.
    if (i == 0 || i == 2 || i == 4) {
      kmc::Space p;
      p.name = s.name + "-pairs";
      auto nt = m->tok.size();
      p.size = nt * nt;
      p.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
        auto a = id / nt, b = id % nt;
        if (b <= a) return;
        auto& al = token_alphabet();
        std::size_t step = thorough ? 1 : 5;
        for (std::size_t x = 0; x < al.size(); ++x)
          for (std::size_t y = thorough ? 0 : (x + a) % step; y < al.size(); y += step) {
            auto& t = m->t;
            auto [a0, a1] = m->tok[a];
            auto [b0, b1] = m->tok[b];
            try_text((*sd)[i].first, t.substr(0, a0) + al[x] + t.substr(a1, b0 - a1) + al[y] + t.substr(b1), ctx);
          }
      };
      p.describe = [=](std::uint64_t id) { return "tokens " + std::to_string(id / nt) + " and " + std::to_string(id % nt) + " replaced in\n" + show(m->t); };
      c.spaces.push_back(p);
    }
  }
  auto bs = std::make_shared<std::vector<std::string>>(binary_seeds());
  for (std::size_t i = 0; i < bs->size(); ++i) {
    kmc::Space s;
    s.name = "kigumi" + std::to_string(i);
    s.size = binary_classes * 32;
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      std::size_t at = 0;
      mutate_binary((*bs)[i], static_cast<int>(id / 32), [&](const std::string& x) {
        if (at++ % 32 == id % 32) try_binary(x, static_cast<int>(at / 32 % 3), ctx);
      });
    };
    s.describe = [=](std::uint64_t id) { return "mutations of class " + std::to_string(id / 32) + ", part " + std::to_string(id % 32) + " of\n" + show((*bs)[i]); };
    s.case_timeout_s = 30;
    c.spaces.push_back(s);
  }
  if (thorough) {
    for (std::size_t i : {0UL, 1UL}) {
      kmc::Space s;
      s.name = "kigumi" + std::to_string(i) + "-pairs";
      s.size = (*bs)[i].size();
      s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
        static const unsigned char al[] = {0, 1, 2, 3, 127, 128, 240, 255};
        for (unsigned char a : al) {
          auto x = (*bs)[i];
          x[id] = static_cast<char>(a);
          for (std::size_t k = id + 1; k < x.size(); ++k)
            for (unsigned char b : al) {
              auto y = x;
              y[k] = static_cast<char>(b);
              try_binary(y, static_cast<int>(k % 3), ctx);
            }
        }
      };
      s.case_timeout_s = 60;
      c.spaces.push_back(s);
    }
  }
  // Not of the format at all, through the file interface.
  {
    auto files = std::make_shared<std::vector<std::pair<std::string, std::string>>>();
    for (auto* e : {".obj", ".off", ".ply", ".kigumi", ".stl", ""})
      for (auto& [f, t] : *sd) files->emplace_back(e, t);
    for (auto* e : {".obj", ".off", ".ply", ".kigumi"})
      for (auto& t : *bs) files->emplace_back(e, t);
    auto scratch = std::make_shared<Scratch>();
    kmc::Space s;
    s.name = "wrong-format";
    s.size = files->size();
    s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
      auto& [e, t] = (*files)[id];
      auto file = scratch->put("x" + std::to_string(getpid()) + e, t);
      ctx.count("inputs");
      if (e == ".kigumi") {
        Region r{soup_of(old_mesh)};
        auto before = exact_text(r);
        auto x = judge_binary(t);
        bool ok = false;
        try {
          ok = kigumi::read_kigumi_region(file, r);
        } catch (const std::runtime_error&) {
        }
        if (ok && x.must == Must::REJECT) ctx.fail("accepts", "a file of another format is accepted");
        if (!ok && x.must == Must::ACCEPT) ctx.fail("rejects", "a valid file is rejected");
        if (!ok && exact_text(r) != before) ctx.fail("changed", "the target has changed");
        return;
      }
      Soup s = soup_of(old_mesh);
      auto before = exact_text(s);
      bool ok = kigumi::read_triangle_soup(file, s);
      Must must = e == ".obj" ? judge_obj(t).must : e == ".off" ? judge_off(t).must : e == ".ply" ? judge_ply(t).must : Must::REJECT;
      if (ok && must == Must::REJECT) ctx.fail("accepts", "a file of another format is accepted as '" + e + "':\n" + show(t));
      if (!ok && must == Must::ACCEPT) ctx.fail("rejects", "a valid file is rejected:\n" + show(t));
      if (!ok && exact_text(s) != before) ctx.fail("changed", "the target has changed");
      if (ok && !unusable(s).empty()) ctx.fail("unusable", unusable(s));
    };
    s.describe = [=](std::uint64_t id) { return (*files)[id].first + ": " + show((*files)[id].second); };
    c.spaces.push_back(s);
  }
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
