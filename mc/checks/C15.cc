// C15: I/O errors are reported at whatever byte they strike.
#define KMC_OWN_HARDWARE_CONCURRENCY
#include <dlfcn.h>
#include <sys/uio.h>

#include "../io_ref.h"
#include "../zoo.h"

// --- the operating system's read and write, under the harness's control ------------------------------------

namespace os {
struct Fault {
  bool on = false;         // act at all
  std::size_t chunk = 0;   // at most so many bytes per call (0: as many as asked for)
  std::size_t bytes = 0;   // fail once so many bytes have gone through ...
  bool limited = false;
  int error = 0;
  int eintr_call = -1;     // this call is interrupted
  // What has happened.
  int calls = 0;
  std::size_t through = 0;
  bool failed = false;
};
thread_local Fault reads, writes;
thread_local std::string accepted;  // what the system has been given

// What happens to a transfer of n bytes: how many go through, or -1.
ssize_t decide(Fault& f, std::size_t n) {
  int call = f.calls++;
  if (call == f.eintr_call) {
    errno = EINTR;
    return -1;
  }
  if (f.chunk && n > f.chunk) n = f.chunk;
  if (f.limited) {
    auto left = f.bytes - f.through;
    if (left == 0 && n > 0) {
      f.failed = true;
      errno = f.error;
      return -1;
    }
    n = std::min(n, left);
  }
  f.through += n;
  return static_cast<ssize_t>(n);
}
template <class F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}  // namespace os

extern "C" ssize_t read(int fd, void* p, size_t n) {
  static auto r = os::real<ssize_t (*)(int, void*, size_t)>("read");
  if (!os::reads.on) return r(fd, p, n);
  // The data are there; the last, empty read can fail as well.
  auto f = os::reads;
  auto k = os::decide(os::reads, n);
  if (k < 0) return k;
  auto got = r(fd, p, static_cast<size_t>(k));
  if (got >= 0) os::reads.through = f.through + static_cast<std::size_t>(got);
  return got;
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  static auto w = os::real<ssize_t (*)(int, const void*, size_t)>("write");
  if (!os::writes.on || fd == 1 || fd == 2) return w(fd, p, n);
  auto k = os::decide(os::writes, n);
  if (k < 0) return k;
  os::accepted.append(static_cast<const char*>(p), static_cast<std::size_t>(k));
  return w(fd, p, static_cast<size_t>(k));
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
  static auto w = os::real<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (!os::writes.on || fd == 1 || fd == 2) return w(fd, v, c);
  std::string all;
  for (int i = 0; i < c; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
  return write(fd, all.data(), all.size());
}

using namespace ior;

namespace {

std::string exact_text(const Soup& s) {
  std::ostringstream o;
  for (auto v : s.vertices()) {
    auto& p = s.point(v).exact();
    o << p.x() << " " << p.y() << " " << p.z() << "\n";
  }
  for (auto f : s.faces()) {
    for (auto v : s.face(f)) o << v.idx() << " ";
    o << s.data(f) << "\n";
  }
  return o.str();
}
std::string exact_text(const Region& r) { return (r.is_empty() ? "E" : r.is_full() ? "F" : "B") + exact_text(r.boundary()); }

// A format and a mesh: how to write it, how to read it.
constexpr int formats = 4;
const char* extension[] = {".obj", ".off", ".ply", ".kigumi"};

const std::vector<Soup>& soups() {
  static const auto r = [] {
    std::vector<Soup> v;
    v.push_back(geom::soup_of(geom::tet({0, 0, 0}, {1.5, 0, 0}, {0, 1, 0}, {0, 0, 0.1})));
    {
      Soup s;  // rationals, a vertex of its own
      K::FT third = K::FT(1) / K::FT(3);
      s.add_vertex({third, 0, 1});
      s.add_vertex({1, -third, 0});
      s.add_vertex({0, 1, 0});
      s.add_vertex({7, 7, 7});
      s.add_face({Vertex_index{0}, Vertex_index{2}, Vertex_index{1}});
      v.push_back(s);
    }
    {
      Soup s;  // beyond the stream's buffer
      for (int i = 0; i < 700; ++i) s.add_vertex({i * 0.125, -i * 0.001, i});
      for (int i = 0; i + 2 < 700; ++i) s.add_face({Vertex_index(i), Vertex_index(i + 2), Vertex_index(i + 1)});
      v.push_back(s);
    }
    return v;
  }();
  return r;
}
bool write_to(int f, std::ostream& o, const Soup& s) {
  if (f < 3) return write(f, o, s);
  return kigumi::write_kigumi_region(o, Region{s});
}
bool write_to(int f, const std::string& name, const Soup& s) {
  if (f < 3) return kigumi::write_triangle_soup(name, s);
  return kigumi::write_kigumi_region(name, Region{s});
}
const std::string& text_of(int f, std::size_t i) {
  static std::map<std::pair<int, std::size_t>, std::string> m;
  auto& t = m[{f, i}];
  if (t.empty()) {
    std::ostringstream o;
    write_to(f, o, soups()[i]);
    t = o.str();
  }
  return t;
}
// The text of a mesh as others may write it: with remarks and an end that needs no data.
std::string dressed(int f, const std::string& t) {
  switch (f) {
    case OBJ: return "# remark\nvn 0 0 1\n" + t + "\n# end";
    case OFF: return "# remark\n" + t + "# end\n\n";
    case PLY: return t.substr(0, 4) + "format ascii 1.0\ncomment remark\n" + t.substr(t.find('\n', 4) + 1) + "\n";
  }
  return t;
}

struct Read_result {
  bool ok;
  std::string before, after, threw;
};
template <class From>
Read_result read_from(int f, From&& from) {
  Read_result r{};
  if (f < 3) {
    Soup s = geom::soup_of(geom::tet({9, 9, 9}, {8, 9, 9}, {9, 8, 9}, {9, 9, 8}), 3);
    r.before = exact_text(s);
    try {
      if constexpr (std::is_same_v<std::decay_t<From>, std::string>) {
        os::reads.on = true;
        r.ok = kigumi::read_triangle_soup(from, s);
      } else r.ok = read(f, from, s);
    } catch (const std::exception& e) {
      r.threw = e.what();
    }
    os::reads.on = false;
    r.after = exact_text(s);
  } else {
    Region s{geom::soup_of(geom::tet({9, 9, 9}, {8, 9, 9}, {9, 8, 9}, {9, 9, 8}), 3)};
    r.before = exact_text(s).substr(1);
    try {
      if constexpr (std::is_same_v<std::decay_t<From>, std::string>) {
        os::reads.on = true;
        r.ok = kigumi::read_kigumi_region(from, s);
      } else r.ok = kigumi::read_kigumi_region(from, s);
    } catch (const std::exception& e) {
      r.threw = e.what();
    }
    os::reads.on = false;
    r.after = exact_text(s).substr(1);
  }
  return r;
}

// `want`: the text of the mesh if the operation may (and must) succeed; nothing if it must fail.
void judge_read(const Read_result& r, const std::optional<std::string>& want, const std::string& what, kmc::Ctx& ctx) {
  ctx.count("faults");
  if (!r.threw.empty()) return ctx.fail("exception", what + ": throws " + r.threw);
  if (!want) {
    ctx.count("nontrivial");
    if (r.ok) return ctx.fail("unreported", what + ": reported as success");
    if (r.after != r.before) return ctx.fail("changed", what + ": the target has changed");
  } else {
    if (!r.ok) return ctx.fail("refused", what + ": reported as failure although nothing failed");
    if (r.after != *want) return ctx.fail("misread", what + ": something else was read");
  }
}

// --- streams ---------------------------------------------------------------------------------------------

class Failing_in : public std::streambuf {
 public:
  Failing_in(std::string t, std::size_t upto, std::size_t chunk) : t_{std::move(t)}, upto_{upto}, chunk_{chunk} {}
  bool failed = false;

 protected:
  int_type underflow() override {
    if (at_ == upto_ || at_ >= t_.size()) {
      if (at_ < t_.size() || upto_ == t_.size()) {
        failed = true;
        throw std::runtime_error("device error");
      }
      return traits_type::eof();
    }
    auto n = std::min({chunk_, upto_ - at_, t_.size() - at_});
    setg(t_.data() + at_, t_.data() + at_, t_.data() + at_ + n);
    at_ += n;
    return traits_type::to_int_type(*gptr());
  }

 private:
  std::string t_;
  std::size_t upto_, chunk_, at_ = 0;
};

// Accepts `upto` bytes. Errors come back as EOF, as an exception, or only from sync().
class Failing_out : public std::streambuf {
 public:
  Failing_out(std::size_t upto, std::size_t buffer, bool throws) : upto_{upto}, throws_{throws}, buf_(buffer) {
    if (buffer) setp(buf_.data(), buf_.data() + buffer);
  }
  std::string taken;
  bool failed = false;
  bool sync_fails = false;

 protected:
  bool give(const char* p, std::size_t n) {
    auto k = std::min(n, upto_ - taken.size());
    taken.append(p, k);
    if (k == n) return true;
    failed = true;
    if (throws_) throw std::runtime_error("device error");
    return false;
  }
  bool drain() {
    auto n = static_cast<std::size_t>(pptr() - pbase());
    bool ok = n == 0 || give(pbase(), n);
    if (!buf_.empty()) setp(buf_.data(), buf_.data() + buf_.size());
    return ok;
  }
  int_type overflow(int_type c) override {
    if (!drain()) return traits_type::eof();
    if (c == traits_type::eof()) return traits_type::not_eof(c);
    if (buf_.empty()) {
      char x = traits_type::to_char_type(c);
      return give(&x, 1) ? c : traits_type::eof();
    }
    *pptr() = traits_type::to_char_type(c);
    pbump(1);
    return c;
  }
  int sync() override {
    if (!drain()) return -1;
    if (sync_fails) {
      failed = true;
      return -1;
    }
    return 0;
  }

 private:
  std::size_t upto_;
  bool throws_;
  std::vector<char> buf_;
};

kmc::Space stream_read_space(int f) {
  kmc::Space s;
  s.name = std::string("read") + extension[f];
  auto texts = std::make_shared<std::vector<std::pair<std::string, std::size_t>>>();
  for (std::size_t i = 0; i < 3; ++i) {
    texts->emplace_back(text_of(f, i), i);
    if (f < 3) texts->emplace_back(dressed(f, text_of(f, i)), i);
  }
  std::vector<std::size_t> first{0};
  for (auto& t : *texts) first.push_back(first.back() + (t.first.size() > 3000 ? 600 : t.first.size() + 1));
  s.size = first.back();
  auto decode = [=](std::uint64_t id) {
    std::size_t k = 0;
    while (id >= first[k + 1]) ++k;
    auto pos = id - first[k];
    auto n = (*texts)[k].first.size();
    if (n > 3000) pos = pos < 300 ? n - pos : pos * n / 600;  // every byte of the end, some of the rest
    return std::make_pair(k, pos);
  };
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    auto [k, pos] = decode(id);
    auto& [t, i] = (*texts)[k];
    std::string want;
    {
      std::istringstream is{t};
      want = read_from(f, is).after;
    }
    for (std::size_t chunk : {std::size_t{1}, std::size_t{7}, t.size() + 1}) {
      if (t.size() > 3000 && chunk == 1) continue;
      Failing_in b{t, pos, chunk};
      std::istream is{&b};
      auto r = read_from(f, is);
      auto what = std::string("reading ") + extension[f] + ", device error after byte " + std::to_string(pos) + " of " + std::to_string(t.size()) + " (chunks of " + std::to_string(chunk) + ")";
      judge_read(r, b.failed ? std::optional<std::string>{} : want, what, ctx);
    }
  };
  s.describe = [=](std::uint64_t id) {
    auto [k, pos] = decode(id);
    return "a device error after byte " + std::to_string(pos) + " of text " + std::to_string(k) + ":\n" + show((*texts)[k].first.substr(0, 300));
  };
  return s;
}

kmc::Space stream_write_space(int f) {
  kmc::Space s;
  s.name = std::string("write") + extension[f];
  std::vector<std::size_t> first{0};
  for (std::size_t i = 0; i < 3; ++i) first.push_back(first.back() + (text_of(f, i).size() > 3000 ? 600 : text_of(f, i).size() + 2));
  s.size = first.back();
  auto decode = [=](std::uint64_t id) {
    std::size_t k = 0;
    while (id >= first[k + 1]) ++k;
    auto pos = id - first[k];
    auto n = text_of(f, k).size();
    if (n > 3000) pos = pos < 300 ? n + 1 - pos : pos * n / 600;
    return std::make_pair(k, pos);
  };
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    auto [k, pos] = decode(id);
    auto& t = text_of(f, k);
    for (std::size_t buffer : {0, 1, 64, 1 << 16})
      for (bool throws : {false, true})
        for (bool sync_fails : {false, true}) {
          if (sync_fails && pos < t.size()) continue;
          Failing_out b{pos, buffer, throws};
          b.sync_fails = sync_fails;
          std::ostream o{&b};
          bool ok = false;
          auto what = std::string("writing ") + extension[f] + " to a device that takes " + std::to_string(pos) + " of " + std::to_string(t.size()) + " bytes (buffer of " + std::to_string(buffer) + (throws ? ", throwing" : "") +
                      (sync_fails ? ", failing to flush" : "") + ")";
          try {
            ok = write_to(f, o, soups()[k]);
          } catch (const std::exception& e) {
            ctx.fail("exception", what + ": throws " + e.what());
            continue;
          }
          ctx.count("faults");
          bool must_fail = pos < t.size() || sync_fails;
          if (must_fail) ctx.count("nontrivial");
          if (must_fail && ok) ctx.fail("unreported", what + ": reported as success");
          if (!must_fail && !ok) ctx.fail("refused", what + ": reported as failure");
          if (ok && b.taken != t) ctx.fail("incomplete", what + ": not all data have been handed over on return");
        }
  };
  s.describe = [=](std::uint64_t id) {
    auto [k, pos] = decode(id);
    return "a device that takes " + std::to_string(pos) + " bytes of mesh " + std::to_string(k);
  };
  return s;
}

// --- files -------------------------------------------------------------------------------------------------

kmc::Space file_read_space(int f, std::shared_ptr<Scratch> scratch, bool thorough) {
  kmc::Space s;
  s.name = std::string("file-read") + extension[f];
  auto files = std::make_shared<std::vector<std::string>>();
  std::vector<std::size_t> first{0};
  for (std::size_t i = 0; i < 3; ++i) {
    files->push_back(scratch->put("in" + std::to_string(i) + extension[f], text_of(f, i)));
    auto n = text_of(f, i).size();
    first.push_back(first.back() + (n > 3000 && !thorough ? 200 : n + 1));
  }
  s.size = first.back();
  auto decode = [=](std::uint64_t id) {
    std::size_t k = 0;
    while (id >= first[k + 1]) ++k;
    auto pos = id - first[k];
    auto n = text_of(f, k).size();
    if (n > 3000 && !thorough) pos = pos < 100 ? n - pos : pos * n / 200;
    return std::make_pair(k, pos);
  };
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    auto [k, pos] = decode(id);
    auto& t = text_of(f, k);
    static std::map<std::pair<int, std::size_t>, std::string> wants;
    auto& want = wants[{f, k}];
    if (want.empty()) want = read_from(f, (*files)[k]).after;
    for (std::size_t chunk : {std::size_t{0}, std::size_t{1}, std::size_t{1000}})
      for (int error : {EIO, EISDIR}) {
        if (t.size() > 3000 && chunk == 1) continue;
        os::reads = {};
        os::reads.limited = true;
        os::reads.bytes = pos;
        os::reads.chunk = chunk;
        os::reads.error = error;
        auto r = read_from(f, (*files)[k]);
        auto what = std::string("reading a file ") + extension[f] + ", read() fails after " + std::to_string(pos) + " of " + std::to_string(t.size()) + " bytes (chunks of " + std::to_string(chunk) + ")";
        judge_read(r, os::reads.failed ? std::optional<std::string>{} : want, what, ctx);
      }
    if (id < 3 || pos == t.size())
      for (int call = 0; call < 4; ++call) {  // interrupted calls are repeated, or reported
        os::reads = {};
        os::reads.chunk = 100;
        os::reads.eintr_call = call;
        auto r = read_from(f, (*files)[k]);
        ctx.count("faults");
        if (r.ok && r.after != want) ctx.fail("misread", "an interrupted read() loses data");
      }
    os::reads = {};
  };
  s.describe = [=](std::uint64_t id) {
    auto [k, pos] = decode(id);
    return "read() fails after " + std::to_string(pos) + " bytes of file " + std::to_string(k);
  };
  return s;
}

kmc::Space file_write_space(int f, std::shared_ptr<Scratch> scratch, bool thorough) {
  kmc::Space s;
  s.name = std::string("file-write") + extension[f];
  std::vector<std::size_t> first{0};
  for (std::size_t i = 0; i < 3; ++i) {
    auto n = text_of(f, i).size();
    first.push_back(first.back() + (n > 3000 && !thorough ? 300 : n + 1));
  }
  s.size = first.back();
  auto decode = [=](std::uint64_t id) {
    std::size_t k = 0;
    while (id >= first[k + 1]) ++k;
    auto pos = id - first[k];
    auto n = text_of(f, k).size();
    if (n > 3000 && !thorough) pos = pos < 150 ? n - pos : pos * n / 300;
    return std::make_pair(k, pos);
  };
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    auto [k, pos] = decode(id);
    auto& t = text_of(f, k);
    auto name = scratch->dir + "/out" + std::to_string(getpid()) + extension[f];
    auto judge = [&](bool ok, bool must_fail, const std::string& what) {
      ctx.count("faults");
      if (must_fail) ctx.count("nontrivial");
      if (must_fail && ok) ctx.fail("unreported", what + ": reported as success");
      if (!must_fail && !ok) ctx.fail("refused", what + ": reported as failure");
      if (ok && slurp(name) != t) ctx.fail("incomplete", what + ": the file is not complete");
      ::unlink(name.c_str());
    };
    for (std::size_t chunk : {std::size_t{0}, std::size_t{1}, std::size_t{1000}})
      for (int error : {ENOSPC, EIO}) {
        if (t.size() > 3000 && chunk == 1) continue;
        os::writes = {};
        os::accepted.clear();
        os::writes.limited = true;
        os::writes.bytes = pos;
        os::writes.chunk = chunk;
        os::writes.error = error;
        os::writes.on = true;
        bool ok = false, threw = false;
        try {
          ok = write_to(f, name, soups()[k]);
        } catch (const std::exception& e) {
          threw = true;
        }
        os::writes.on = false;
        auto what = std::string("writing a file ") + extension[f] + ", write() fails after " + std::to_string(pos) + " of " + std::to_string(t.size()) + " bytes (chunks of " + std::to_string(chunk) + ")";
        if (threw) ctx.fail("exception", what + ": throws");
        else judge(ok, pos < t.size(), what);
      }
    if (pos % 4 == 0) {  // the same with the kernel's own limit
      struct rlimit old, lim;
      getrlimit(RLIMIT_FSIZE, &old);
      lim = old;
      lim.rlim_cur = pos;
      signal(SIGXFSZ, SIG_IGN);
      setrlimit(RLIMIT_FSIZE, &lim);
      bool ok = write_to(f, name, soups()[k]);
      setrlimit(RLIMIT_FSIZE, &old);
      judge(ok, pos < t.size(), std::string("writing a file ") + extension[f] + " of " + std::to_string(t.size()) + " bytes where " + std::to_string(pos) + " are allowed");
    }
    os::writes = {};
  };
  s.describe = [=](std::uint64_t id) {
    auto [k, pos] = decode(id);
    return "write() fails after " + std::to_string(pos) + " bytes of mesh " + std::to_string(k);
  };
  return s;
}

// Places that cannot be read or written at all, and an existing longer file.
kmc::Space place_space(std::shared_ptr<Scratch> scratch) {
  kmc::Space s;
  s.name = "places";
  s.size = formats * 7;
  s.run = [=](std::uint64_t id, kmc::Ctx& ctx) {
    int f = static_cast<int>(id % formats);
    auto dir = scratch->dir + "/d" + std::to_string(getpid());
    ::mkdir(dir.c_str(), 0700);
    std::string e = extension[f];
    ctx.count("faults");
    ctx.count("nontrivial");
    auto rd = [&](const std::string& name) {
      os::reads = {};
      auto r = read_from(f, name);
      if (!r.threw.empty()) ctx.fail("exception", "reading " + name + " throws " + r.threw);
      if (r.ok) ctx.fail("unreported", "reading " + name + " is reported as success");
      if (r.after != r.before) ctx.fail("changed", "reading " + name + " changes the target");
    };
    auto wr = [&](const std::string& name) {
      if (write_to(f, name, soups()[0])) ctx.fail("unreported", "writing " + name + " is reported as success");
    };
    switch (id / formats) {
      case 0: rd(dir + "/missing" + e); break;
      case 1:
        ::mkdir((dir + "/dir" + e).c_str(), 0700);
        rd(dir + "/dir" + e);
        wr(dir + "/dir" + e);
        ::rmdir((dir + "/dir" + e).c_str());
        break;
      case 2: wr(dir + "/missing/x" + e); break;
      case 3: {
        auto l = dir + "/full" + e;
        ::symlink("/dev/full", l.c_str());
        wr(l);
        ::unlink(l.c_str());
        break;
      }
      case 4: {  // an existing longer file is replaced
        auto n = dir + "/long" + e;
        {
          std::ofstream o(n);
          o << std::string(5000, 'x');
        }
        if (!write_to(f, n, soups()[0]) || slurp(n) != text_of(f, 0)) ctx.fail("incomplete", "an existing file is not replaced");
        ::unlink(n.c_str());
        break;
      }
      case 5: {  // a stream that has failed before
        std::istringstream is{text_of(f, 0)};
        is.setstate(std::ios::failbit);
        auto r = read_from(f, is);
        if (r.ok || r.after != r.before) ctx.fail("unreported", "reading from a failed stream is reported as success");
        std::ostringstream o;
        o.setstate(std::ios::badbit);
        if (write_to(f, o, soups()[0])) ctx.fail("unreported", "writing to a failed stream is reported as success");
        break;
      }
      case 6: {
        auto n = dir + "/none" + e;
        {
          std::ofstream o(n);
        }
        if (f != OBJ) rd(n);
        ::unlink(n.c_str());
        break;
      }
    }
    ::rmdir(dir.c_str());
  };
  s.describe = [](std::uint64_t id) { return std::string(extension[id % formats]) + ", place " + std::to_string(id / formats); };
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  bool thorough = kmc::tier_of(argc, argv) == "thorough";
  auto scratch = std::make_shared<Scratch>();
  kmc::Check c;
  c.property = "C15";
  c.rule =
      "an evaluation is one read or write with one fault injected - in the stream buffer, in read() or write(), by the kernel's file "
      "size limit - at one byte; it must be reported if it struck, and the target of a read stays unchanged; a success must have read or handed over "
      "everything; non-trivial: a fault that struck";
  c.assumptions = {"write errors that the system reports only on close() or fsync() are out of scope", "faults at every byte of the small meshes; of the large one (beyond the stream's buffer) at every byte of the last 100 to 300 and spread over the rest (thorough: every byte for files)"};
  c.evaluations_counter = "faults";
  for (int f = 0; f < formats; ++f) {
    c.spaces.push_back(stream_read_space(f));
    c.spaces.push_back(stream_write_space(f));
    c.spaces.push_back(file_read_space(f, scratch, thorough));
    c.spaces.push_back(file_write_space(f, scratch, thorough));
  }
  c.spaces.push_back(place_space(scratch));
  return kmc::Driver(std::move(c), argc, argv).run();
}
