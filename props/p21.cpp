// P21: every operation is a pure function of its arguments, in any history and on any thread.
//
// The process that makes the cases never calls the library. What a call gives "on its own" comes from a child process in
// which it is the first and only call; another child runs the history.
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <barrier>
#include <cstring>
#include <map>
#include <thread>

#include "../gen/ops_gen.hpp"

namespace {

#if defined(__SANITIZE_THREAD__)
constexpr bool tsan = true;
#else
constexpr bool tsan = false;
#endif

// Runs a function in a child process; gives the text it returns.
struct Shared {
  static constexpr std::size_t capacity = std::size_t{1} << 22U;
  std::size_t size;
  char text[capacity - sizeof (std::size_t)];
};
Shared& shared () {
  static auto* const p = static_cast<Shared*> (
    mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  return *p;
}
struct Result {
  int status = 0;
  std::string text;
};
template <typename Function>
Result in_child (Function f) {
  auto& out = shared ();
  out.size = 0;
  pid_t const pid = fork ();
  if (pid == 0) {
    itimerval t{};
    t.it_value.tv_sec = 15;
    (void)setitimer (ITIMER_PROF, &t, nullptr);  // the handler is the driver's
    std::string const r = f ();
    out.size = std::min (r.size (), sizeof (out.text));
    std::memcpy (out.text, r.data (), out.size);
    _exit (0);
  }
  if (pid < 0) {
    std::perror ("fork");
    std::_Exit (2);
  }
  int status = 0;
  while (waitpid (pid, &status, 0) < 0) {
  }
  return {status, std::string (out.text, out.size)};
}

std::string guarded (ops::Op const& op, ops::Kept* kept = nullptr) {
  try {
    auto k = ops::run (op);
    auto r = k ();
    if (kept != nullptr) {
      *kept = std::move (k);
    }
    return r;
  } catch (std::exception const& ex) {
    return std::string{"exception: "} + ex.what ();
  } catch (...) {
    return "exception";
  }
}

struct Step {
  ops::Kind kind;
  std::size_t a, b, cps, p, q;
  unsigned n;
  bool reuse;  // copies the arguments to memory which was used for others before
  bool keep;   // looks at the result again after everything else
  auto same_call () const { return std::tuple{kind, a, b, cps, p, q, n}; }
};

struct Pool {
  std::vector<pbt::Exact> texts;
  std::vector<std::vector<char32_t>> cps;
  std::vector<uri::parts> parts;
};

// Objects of the library which the calls of a history share: one for each text and each code points that come together.
// To be made where the library may be called.
using Sharing = std::map<std::pair<std::size_t, std::size_t>, std::unique_ptr<ops::Objects>>;

ops::Op bind (Pool const& pool, Step const& s, Sharing const* sharing = nullptr) {
  auto const& cps = pool.cps[s.cps];
  ops::Objects const* objects = nullptr;
  if (s.kind == ops::Kind::shared && sharing != nullptr) {
    objects = sharing->at ({s.a, s.cps}).get ();
  }
  return {s.kind, pool.texts[s.a].view (), pool.texts[s.b].view (), {cps.data (), cps.size ()}, &pool.parts[s.p], &pool.parts[s.q], s.n,
          objects};
}

// Memory at the same place for the texts of different components.
class Arena {
public:
  static constexpr std::size_t room = 2048;
  uri::parts const* copy (uri::parts const& p) {
    parts_ = p;
    used_ = 0;
    bool ok = true;
    auto const move = [&] (std::string_view& v) {
      if (v.size () > room - used_) {
        ok = false;
      } else if (!v.empty ()) {
        auto* const to = memory_.data () + used_;
        std::copy (v.begin (), v.end (), to);
        v = {to, v.size ()};
        used_ += v.size ();
      }
    };
    auto const optional = [&] (std::optional<std::string_view>& v) {
      if (v) {
        move (*v);
      }
    };
    optional (parts_.scheme);
    if (parts_.authority) {
      optional (parts_.authority->userinfo);
      move (parts_.authority->host);
      optional (parts_.authority->port);
    }
    for (auto& segment : parts_.path.segments) {
      move (segment);
    }
    optional (parts_.query);
    optional (parts_.fragment);
    return ok ? &parts_ : &p;
  }

private:
  std::vector<char> memory_ = std::vector<char> (room);
  std::size_t used_ = 0;
  uri::parts parts_;
};

// One thread's part of a history. Returns what went wrong.
std::string history (Pool const& pool, Sharing const& sharing, std::vector<Step> const& steps, std::vector<std::string> const& expected) {
  std::vector<std::pair<std::size_t, ops::Kept>> kept;
  static constexpr std::size_t room = 512;
  std::vector<char> memory_a (room);
  std::vector<char> memory_b (room);
  std::vector<char32_t> memory_cps (room);
  Arena memory_p;
  Arena memory_q;
  auto const report = [&] (std::size_t i, std::string const& got, char const* when) {
    return std::string{"call "} + std::to_string (i) + " (" + ops::names[static_cast<std::size_t> (steps[i].kind)] + ") " + when +
           " gave " + pbt::show (got.substr (0, 300)) + ", on its own it gives " + pbt::show (expected[i].substr (0, 300));
  };
  for (std::size_t i = 0; i < steps.size (); ++i) {
    auto op = bind (pool, steps[i], steps[i].reuse ? nullptr : &sharing);
    bool const reuse = steps[i].reuse && op.a.size () <= room && op.b.size () <= room && op.cps.size () <= room;
    if (reuse) {
      std::copy (op.a.begin (), op.a.end (), memory_a.begin ());
      op.a = {memory_a.data (), op.a.size ()};
      std::copy (op.b.begin (), op.b.end (), memory_b.begin ());
      op.b = {memory_b.data (), op.b.size ()};
      std::copy (op.cps.begin (), op.cps.end (), memory_cps.begin ());
      op.cps = {memory_cps.data (), op.cps.size ()};
      op.p = memory_p.copy (*op.p);
      op.q = memory_q.copy (*op.q);
    }
    ops::Kept k;
    auto const got = guarded (op, &k);
    if (got != expected[i]) {
      return report (i, got, reuse ? "on reused memory" : "in the history");
    }
    if (steps[i].keep && !reuse && k) {
      kept.emplace_back (i, std::move (k));
    }
  }
  for (auto const& [i, k] : kept) {
    if (auto const got = k (); got != expected[i]) {
      return report (i, got, "when looked at again");
    }
  }
  return {};
}

std::string inputs (Pool const& pool) {
  std::string r;
  for (auto const& t : pool.texts) {
    r += std::to_string (t.view ().size ()) + ":";
    r += t.view ();
  }
  for (auto const& v : pool.cps) {
    for (auto const cp : v) {
      r += std::to_string (static_cast<std::uint32_t> (cp)) + ",";
    }
    r += ';';
  }
  for (auto const& p : pool.parts) {
    r += ops::show (p);
  }
  return r;
}

// Another text of the same size.
std::string variant (pbt::Source& s, std::string t) {
  for (auto n = t.empty () ? 0 : 1 + s.below (3); n > 0; --n) {
    auto& ch = t[s.below (t.size ())];
    ch = s.flip () ? s.pick_char ("a %/:~1\x80-.A[") : t[s.below (t.size ())];
  }
  return t;
}

// Components each as long as that of another.
ref::Parts variant (pbt::Source& s, ref::Parts m) {
  auto const one = [&] (std::string& t) {
    if (s.flip ()) {
      t = variant (s, std::move (t));
    }
  };
  auto const optional = [&] (std::optional<std::string>& t) {
    if (t) {
      one (*t);
    }
  };
  optional (m.scheme);
  if (m.authority) {
    optional (m.authority->userinfo);
    one (m.authority->host);
    optional (m.authority->port);
  }
  for (auto& segment : m.path.segments) {
    one (segment);
  }
  optional (m.query);
  optional (m.fragment);
  return m;
}

void run (pbt::Case& c) {
  auto& s = c.src;
  Pool pool;
  for (auto n = 2 + s.below (3); n > 0; --n) {
    auto t = ops::text (s, c);
    if (!pool.texts.empty () && s.chance (1, 4)) {
      // Differs a little from another.
      t = gen::mutate_once (s, std::string{pool.texts.back ().view ()});
    } else if (!pool.texts.empty () && s.chance (1, 3)) {
      t = variant (s, std::string{pool.texts.back ().view ()});
    }
    c.note ("text", t);
    pool.texts.emplace_back (t);
  }
  for (auto n = 1 + s.below (2); n > 0; --n) {
    auto const t = gen::utf32_like (s, 12);
    c.note ("code points", t);
    pool.cps.emplace_back (t.begin (), t.end ());
  }
  std::vector<std::unique_ptr<gen::PartsHolder>> holders;
  ref::Parts m;
  for (auto n = 2 + s.below (2); n > 0; --n) {
    m = !holders.empty () && s.chance (1, 3) ? variant (s, std::move (m)) : s.flip () ? gen::parts (s, s.flip ()) : ops::components (s, {});
    c.note ("components", ref::show (m));
    holders.push_back (std::make_unique<gen::PartsHolder> (s));
    pool.parts.push_back (holders.back ()->make (m));
  }
  unsigned const threads = s.chance (1, tsan ? 1 : 3) ? 2 + static_cast<unsigned> (s.below (3)) : 1;
  // A few kinds of call only, so that equal ones meet.
  std::vector<std::uint64_t> kinds;
  for (auto n = 1 + s.length (6); n > 0; --n) {
    // Objects which are shared more often: there are several kinds.
    kinds.push_back (s.chance (1, 8) ? static_cast<std::uint64_t> (ops::Kind::shared) : s.below (static_cast<std::uint64_t> (ops::Kind::last)));
  }
  auto const rounds = std::size_t{1} << (s.chance (1, 12) ? 6 : s.below (3));
  std::vector<Step> distinct;
  for (auto n = 1 + s.length (9); n > 0; --n) {
    distinct.push_back ({static_cast<ops::Kind> (s.pick (kinds)), s.below (pool.texts.size ()), s.below (pool.texts.size ()),
                         s.below (pool.cps.size ()), s.below (pool.parts.size ()), s.below (pool.parts.size ()),
                         static_cast<unsigned> (s.below (24)), false, false});
    if (s.chance (1, 3)) {
      // The same with other arguments.
      auto twin = distinct.back ();
      twin.a = (twin.a + 1U) % pool.texts.size ();
      twin.b = (twin.b + 1U) % pool.texts.size ();
      twin.cps = (twin.cps + 1U) % pool.cps.size ();
      twin.p = (twin.p + 1U) % pool.parts.size ();
      twin.q = (twin.q + 1U) % pool.parts.size ();
      distinct.push_back (twin);
    }
  }
  std::vector<std::vector<Step>> plans (threads);
  std::vector<std::vector<std::string>> expected (threads);
  std::vector<std::string> alone;
  for (auto const& d : distinct) {
    auto const r = in_child ([&] { return guarded (bind (pool, d)); });
    c.check (r.status == 0, [&] { return std::string{"a single call ended its process: "} + ops::names[static_cast<std::size_t> (d.kind)]; });
    c.check (!r.text.starts_with (ops::nested_differs), [&] { return r.text; });
    alone.push_back (r.text);
  }
  c.describe ("calls", [&] {
    std::string r;
    for (std::size_t i = 0; i < distinct.size (); ++i) {
      auto const& d = distinct[i];
      r += std::string{ops::names[static_cast<std::size_t> (d.kind)]} + "(text " + std::to_string (d.a) + "," + std::to_string (d.b) +
           " code points " + std::to_string (d.cps) + " components " + std::to_string (d.p) + "," + std::to_string (d.q) + " option " +
           std::to_string (d.n) + ")=" + pbt::show (alone[i].substr (0, 80)) + "; ";
    }
    return r;
  });
  std::size_t calls = 0;
  for (unsigned t = 0; t < threads; ++t) {
    std::string order;
    bool const all_reuse = s.chance (1, 4);  // the same memory again and again
    for (auto n = 1 + (s.chance (1, 5) ? s.below (80) : s.length (14)); n > 0; --n) {
      auto const i = s.below (distinct.size ());
      plans[t].push_back (distinct[i]);
      plans[t].back ().reuse = all_reuse || s.chance (1, 3);
      plans[t].back ().keep = s.flip ();
      expected[t].push_back (alone[i]);
      order += std::to_string (i) + (plans[t].back ().reuse ? "r" : "") + (plans[t].back ().keep ? "k " : " ");
      ++calls;
    }
    c.note (threads > 1 ? "order on a thread" : "order", order);
    if (threads > 1 && s.chance (1, 2)) {
      // Every thread the same.
      for (++t; t < threads; ++t) {
        plans[t] = plans[0];
        expected[t] = expected[0];
        calls += plans[0].size ();
      }
    }
  }
  c.label (threads > 1 ? "threads" : "one thread");
  bool failing = false;
  bool succeeding = false;
  for (auto const& a : alone) {
    (a == "none" || a.starts_with ("error") || a.starts_with ("invalid") ? failing : succeeding) = true;
  }
  c.label_if (failing && succeeding, "failing and succeeding calls");
  for (auto const& d : distinct) {
    c.label (ops::names[static_cast<std::size_t> (d.kind)]);
  }
  if (calls > 1) {
    c.nontrivial ();
  }
  auto const before = inputs (pool);
  auto const r = in_child ([&] {
    std::vector<std::string> bad (threads);
    Sharing sharing;
    for (auto const& d : distinct) {
      if (auto& objects = sharing[{d.a, d.cps}]; d.kind == ops::Kind::shared && !objects) {
        auto const& cps = pool.cps[d.cps];
        objects = std::make_unique<ops::Objects> (pool.texts[d.a].view (), std::u32string_view{cps.data (), cps.size ()});
      }
    }
    if (threads == 1) {
      for (std::size_t round = 0; round < rounds && bad[0].empty (); ++round) {
        bad[0] = history (pool, sharing, plans[0], expected[0]);
      }
    } else {
      std::barrier start{static_cast<std::ptrdiff_t> (threads)};
      std::vector<std::thread> team;
      for (unsigned t = 0; t < threads; ++t) {
        team.emplace_back ([&, t] {
          start.arrive_and_wait ();
          for (std::size_t round = 0; round < rounds && bad[t].empty (); ++round) {
            bad[t] = history (pool, sharing, plans[t], expected[t]);
          }
        });
      }
      for (auto& t : team) {
        t.join ();
      }
    }
    for (auto const& b : bad) {
      if (!b.empty ()) {
        return b;
      }
    }
    return inputs (pool) == before ? std::string{} : std::string{"the arguments were modified"};
  });
  c.check (r.status == 0, [&] { return "the history ended its process: status " + std::to_string (r.status); });
  if (!r.text.empty ()) {
    c.fail (r.text);
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P21",
  "A case is a pool of texts, code points and components, up to 20 calls on them (some the same but for arguments of the same size) and an order of up to 80 calls (repeats, reused "
  "memory, views and rules which several calls and threads go through, calls from within others' callbacks, results kept), run once or up to 64 times over, on one to four threads. Each result is compared with that of the same call made first and alone in a "
  "fresh process; kept results and arguments are looked at again at the end; the tsan stage watches for data races. "
  "Non-trivial: more than one call in the history.",
  run};
