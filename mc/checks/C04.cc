// C04: one computation answers any sequence of operators.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include "../geom.h"
#include "../zoo.h"

using namespace geom;

namespace {

// Everything observable about a region, in storage order.
std::string layout(const Region& r) {
  std::ostringstream o;
  o.precision(17);
  o << r.is_empty() << r.is_full() << ' ';
  const auto& s = r.boundary();
  for (auto vi : s.vertices()) {
    auto v = to_v3(s.point(vi));
    o << v.x << ',' << v.y << ',' << v.z << ' ';
  }
  for (auto fi : s.faces()) {
    const auto& f = s.face(fi);
    o << f[0].idx() << ',' << f[1].idx() << ',' << f[2].idx() << '#' << s.data(fi) << ' ';
  }
  return o.str();
}

constexpr int kSymbols = 32;
Region ask(const Builder& b, int sym) { return b(static_cast<Op>(sym / 2), sym % 2 == 0); }
std::string sym_name(int sym) { return std::string(op_name(static_cast<Op>(sym / 2))) + (sym % 2 ? "'" : ""); }

std::vector<int> de_bruijn(int k, int n) {
  std::vector<int> a(k * n, 0), seq;
  std::function<void(int, int)> db = [&](int t, int p) {
    if (t > n) {
      if (n % p == 0)
        for (int j = 1; j <= p; ++j) seq.push_back(a[j]);
      return;
    }
    a[t] = a[t - p];
    db(t + 1, p);
    for (int j = a[t - p] + 1; j < k; ++j) {
      a[t] = j;
      db(t + 1, t);
    }
  };
  db(1, 1);
  return seq;
}

struct Fixture {
  Shape a, b;
};

void run_pair(const Fixture& f, bool thorough, kmc::Ctx& ctx) {
  Pair_oracle oracle{f.a, f.b};
  auto ra = std::make_unique<Region>(region_of(f.a)), rb = std::make_unique<Region>(region_of(f.b, 1000));
  auto la = layout(*ra), lb = layout(*rb);

  // What a fresh computation answers to each symbol.
  std::vector<std::uint64_t> fresh(kSymbols);
  for (int s = 0; s < kSymbols; ++s) {
    auto r = ask(Builder{*ra, *rb}, s);
    fresh[s] = fingerprint(r);
    ctx.outcome(fresh[s]);
    if (auto v = oracle.check(static_cast<Op>(s / 2), r))
      ctx.fail("preference-" + v.key, v.text + (s % 2 ? " (preferring the second operand)" : ""));
  }
  auto expect = [&](const Region& r, int s, const std::function<std::string()>& history) {
    ctx.count("transitions");
    if (fingerprint(r) != fresh[s]) ctx.fail("history", "asking " + sym_name(s) + " after " + history() + " answers differently from a fresh computation");
  };

  // All histories of length two, each from its own computation.
  for (int s = 0; s < kSymbols; ++s)
    for (int t = 0; t < kSymbols; ++t) {
      Builder b{*ra, *rb};
      expect(ask(b, s), s, [] { return std::string("nothing"); });
      expect(ask(b, t), t, [&] { return sym_name(s); });
      ctx.count("sequences");
      if (s != t) ctx.count("nontrivial");
    }
  // Every window of three (thorough: four over the eight most used symbols) on one long-lived computation.
  {
    Builder b{*ra, *rb};
    auto w = b.warnings();
    auto seq = de_bruijn(kSymbols, 3);
    seq.push_back(seq[0]);
    seq.push_back(seq[1]);
    for (std::size_t i = 0; i < seq.size(); ++i)
      expect(ask(b, seq[i]), seq[i], [&] {
        return (i > 1 ? sym_name(seq[i - 2]) + ", " : "") + (i > 0 ? sym_name(seq[i - 1]) : "") + " in a long sequence";
      });
    ctx.count("windows", seq.size() - 2), ctx.count("sequences", seq.size() - 2);
    if (thorough) {
      auto s5 = de_bruijn(8, 5);
      static const int some[8] = {2, 3, 10, 11, 20, 22, 23, 24};
      for (int x : s5) expect(ask(b, some[x]), some[x], [] { return std::string("a long sequence"); });
      ctx.count("windows", s5.size() - 4);
    }
    if (b.warnings() != w) ctx.fail("warnings", "asking operators changed the warnings");
    if (layout(*ra) != la || layout(*rb) != lb) ctx.fail("operand-modified", "an operand was modified");
  }
  // Copies and moves, with the results fed on, and operands that end their lives or change.
  for (int how = 0; how < 6; ++how)
    for (int s = 0; s < kSymbols; ++s) {
      auto ca = std::make_unique<Region>(*ra), cb = std::make_unique<Region>(*rb);
      std::optional<Builder> b{std::in_place, *ca, *cb};
      std::optional<Builder> c;
      std::string hist;
      switch (how) {
        case 0:
          hist = "copying";
          expect(ask(*b, s), s, [&] { return hist; });
          c.emplace(*b);
          break;
        case 1:
          hist = "moving";
          expect(ask(*b, s), s, [&] { return hist; });
          c.emplace(std::move(*b));
          break;
        case 2:
          hist = "assigning over another computation";
          c.emplace(*cb, *ca);
          (void)ask(*c, s);
          *c = *b;
          break;
        case 3:
          hist = "the operands' destruction";
          ca.reset();
          cb.reset();
          c.emplace(*b);
          break;
        case 4:
          hist = "assigning to the operands";
          *ca = Region::full();
          *cb = Region::empty();
          c.emplace(*b);
          break;
        case 5: {
          hist = "changing a result";
          auto r = ask(*b, s);
          for (auto fi : r.boundary().faces()) r.boundary_unsafe().data(fi) = -7;
          c.emplace(*b);
          break;
        }
      }
      if (how != 1) b.reset();
      for (int t : {s, (s + 5) % kSymbols, (s * 7 + 3) % kSymbols}) expect(ask(*c, t), t, [&] { return hist + " and " + sym_name(s); });
      ctx.count("sequences");
      ctx.count("nontrivial");
    }
  if (layout(*ra) != la || layout(*rb) != lb) ctx.fail("operand-modified", "an operand was modified");
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  kmc::Check c;
  c.property = "C04";
  c.rule =
      "an operand pair is explored with all operator/preference sequences of length two from a fresh computation, all windows "
      "of length three on one computation, and copies, moves, assignments and operand destruction in between; the model is a "
      "computation without history, the table of the 32 answers of fresh computations";
  c.assumptions = {"answers are compared by a 64-bit fingerprint over kind, positions, orientation and data"};
  c.evaluations_counter = "sequences";
  c.transitions_counter = "transitions";
  c.bounds = {{"sequence length", "2 from fresh, 3-windows on one computation"}, {"symbols", "16 operators x 2 preferences"}};

  std::vector<Shape> shapes{empty_shape(),
                            full_shape(),
                            box({0, 0, 0}, {2, 2, 2}, 0),
                            box({0, 0, 0}, {2, 2, 1}, 1),
                            box({1, 1, 1}, {3, 3, 3}, 0),
                            tet({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}),
                            inverted(tet({0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2})),
                            inverted(box({0, 0, 0}, {2, 2, 2}, 1)),
                            octahedron({1, 1, 1}, 1)};
  if (thorough)
    for (auto& s : zoo::zoo()) shapes.push_back(s);
  auto fx = std::make_shared<std::vector<Fixture>>();
  for (auto& a : shapes)
    for (auto& b : shapes) fx->push_back({a, b});
  kmc::Space s;
  s.name = "pairs";
  s.size = fx->size();
  s.case_timeout_s = 300;
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) { run_pair((*fx)[id], thorough, ctx); };
  s.describe = [=](std::uint64_t id) { return "A: " + (*fx)[id].a.text() + " | B: " + (*fx)[id].b.text(); };
  c.spaces.push_back(s);
  kmc::g_hardware_concurrency = 1;
  return kmc::Driver(std::move(c), argc, argv).run();
}
