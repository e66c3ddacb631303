// Driver of the random stage and of replays.
//
//   PROG run SEED FIRST STEP CASES MAX_SECONDS STATE_FILE OUT_JSON [CORPUS_DIR]
//     Runs cases FIRST, FIRST+STEP, ... of the campaign with the given seed. The choices of the current case are kept
//     in STATE_FILE (its number and the count of choices, 8 bytes each, then the choices), so that they survive a crash.
//     Exit: 0 all passed, 10 a case failed, 11 a case used too much CPU time, anything else: crashed.
//   PROG replay FILE
//     Runs the case whose choices are in FILE. Exit: 0 passed, 10 failed, 11 used too much CPU time.
//   PROG shrink FILE OUT MAX_SECONDS
//     Writes to OUT a smaller sequence of choices with which the case still fails.
//   PROG count FILE...
//     Prints the number of distinct 8-byte values in the files.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>

#include "engine.hpp"

namespace {

constexpr int exit_failed = 10;
constexpr int exit_cpu = 11;
// Far more than any case needs (milliseconds): only an endless loop gets here.
int const cpu_limit_s = std::getenv ("PBT_CPU_LIMIT") != nullptr ? std::atoi (std::getenv ("PBT_CPU_LIMIT")) : 20;

void on_cpu (int) {
  static char const msg[] = "CPU-LIMIT: the case did not terminate within its CPU limit\n";
  (void)!write (1, msg, sizeof (msg) - 1);
  _exit (exit_cpu);
}
void arm (int seconds = cpu_limit_s) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  (void)setitimer (ITIMER_PROF, &t, nullptr);
}

using Bytes = std::vector<std::uint8_t>;

Bytes read_file (char const* path) {
  std::ifstream f{path, std::ios::binary};
  return Bytes{std::istreambuf_iterator<char>{f}, {}};
}

// Runs a case in a child process. Returns true if it fails in any way but by using too much CPU time.
bool fails (Bytes const& data) {
  pid_t const pid = fork ();
  if (pid == 0) {
    int const null = open ("/dev/null", O_WRONLY);
    (void)dup2 (null, 1);
    (void)dup2 (null, 2);
    arm (5);
    (void)alarm (30);
    auto src = pbt::Source::replay (data.data (), data.size ());
    pbt::Case c{src, false};
    _exit (pbt::run_case (c).empty () ? 0 : exit_failed);
  }
  if (pid < 0) {
    return false;
  }
  int status = 0;
  while (waitpid (pid, &status, 0) < 0) {
  }
  if (WIFEXITED (status)) {
    return WEXITSTATUS (status) != 0 && WEXITSTATUS (status) != exit_cpu;
  }
  return WTERMSIG (status) != SIGALRM;
}

int shrink (char const* in, char const* out, double max_seconds) {
  Bytes best = read_file (in);
  auto const t0 = std::chrono::steady_clock::now ();
  auto const expired = [&] {
    return std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count () > max_seconds;
  };
  auto const attempt = [&] (Bytes const& candidate) {
    if (expired () || !fails (candidate)) {
      return false;
    }
    best = candidate;
    return true;
  };
  if (!fails (best)) {
    return 1;
  }
  for (bool progress = true; progress && !expired ();) {
    auto const before = best;
    // Cut the tail.
    for (std::size_t n = best.size (); n > 0; n /= 2) {
      while (best.size () >= n && attempt (Bytes (best.begin (), best.end () - static_cast<std::ptrdiff_t> (n)))) {
      }
    }
    // Delete chunks.
    for (std::size_t n = std::min<std::size_t> (64, best.size ()); n > 0; n = n > 8 ? n / 2 : n - 1) {
      for (std::size_t p = best.size (); p >= n && !expired (); --p) {
        if (p > best.size ()) {
          continue;
        }
        Bytes c = best;
        c.erase (c.begin () + static_cast<std::ptrdiff_t> (p - n), c.begin () + static_cast<std::ptrdiff_t> (p));
        (void)attempt (c);
      }
    }
    // Lower bytes.
    for (std::size_t p = 0; p < best.size () && !expired (); ++p) {
      if (best[p] == 0) {
        continue;
      }
      Bytes c = best;
      c[p] = 0;
      if (attempt (c)) {
        continue;
      }
      for (unsigned d = 128; d > 0; d /= 2) {
        while (best[p] > d) {
          c = best;
          c[p] = static_cast<std::uint8_t> (best[p] - d);
          if (!attempt (c)) {
            break;
          }
        }
      }
    }
    while (!best.empty () && best.back () == 0) {
      best.pop_back ();  // a missing choice is zero
    }
    progress = best != before;
  }
  std::ofstream f{out, std::ios::binary};
  f.write (reinterpret_cast<char const*> (best.data ()), static_cast<std::streamsize> (best.size ()));
  return f ? 0 : 2;
}

int count_distinct (int n, char** files) {
  std::vector<std::uint64_t> v;
  for (int i = 0; i < n; ++i) {
    auto const b = read_file (files[i]);
    auto const old = v.size ();
    v.resize (old + b.size () / sizeof (std::uint64_t));
    std::memcpy (v.data () + old, b.data (), (v.size () - old) * sizeof (std::uint64_t));
  }
  std::sort (v.begin (), v.end ());
  std::printf ("%zu\n", static_cast<std::size_t> (std::unique (v.begin (), v.end ()) - v.begin ()));
  return 0;
}

int replay (char const* path) {
  Bytes const data = read_file (path);
  auto src = pbt::Source::replay (data.data (), data.size ());
  pbt::Case c{src, true};
  c.live (true);
  arm ();
  auto const msg = pbt::run_case (c);
  if (msg.empty ()) {
    std::printf ("PASSED%s\n", c.is_discarded () ? " (discarded)" : "");
    return 0;
  }
  std::printf ("FAILED %s\n", msg.c_str ());
  return exit_failed;
}

}  // namespace

int main (int argc, char** argv) {
  (void)std::signal (SIGPROF, on_cpu);
  rlimit const nocore{0, 0};
  (void)setrlimit (RLIMIT_CORE, &nocore);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  // Runaway allocation becomes std::bad_alloc.
  rlimit const memory{rlim_t{3} << 30U, rlim_t{3} << 30U};
  (void)setrlimit (RLIMIT_AS, &memory);
#endif
  if (argc == 3 && std::strcmp (argv[1], "replay") == 0) {
    return replay (argv[2]);
  }
  if (argc == 5 && std::strcmp (argv[1], "shrink") == 0) {
    return shrink (argv[2], argv[3], std::strtod (argv[4], nullptr));
  }
  if (argc >= 3 && std::strcmp (argv[1], "count") == 0) {
    return count_distinct (argc - 2, argv + 2);
  }
  if (argc < 9 || std::strcmp (argv[1], "run") != 0) {
    std::fprintf (stderr, "usage\n");
    return 2;
  }
  auto const seed = std::strtoull (argv[2], nullptr, 10);
  auto const first = std::strtoull (argv[3], nullptr, 10);
  auto const step = std::strtoull (argv[4], nullptr, 10);
  auto const cases = std::strtoull (argv[5], nullptr, 10);
  auto const max_seconds = std::strtod (argv[6], nullptr);
  char const* const state_file = argv[7];
  char const* const out = argv[8];
  char const* const corpus = argc > 9 ? argv[9] : nullptr;

  constexpr auto state_size = 2 * sizeof (std::uint64_t) + pbt::Source::max_choices;
  int const fd = open (state_file, O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate (fd, static_cast<off_t> (state_size)) != 0) {
    std::perror (state_file);
    return 2;
  }
  void* const map = mmap (nullptr, state_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (map == MAP_FAILED) {
    std::perror ("mmap");
    return 2;
  }
  auto* const number = static_cast<std::uint64_t*> (map);
  auto* const count = static_cast<std::size_t*> (map) + 1;
  auto* const record = static_cast<std::uint8_t*> (map) + 2 * sizeof (std::uint64_t);

  auto const t0 = std::chrono::steady_clock::now ();
  auto const elapsed = [&] { return std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count (); };
  pbt::Stats stats;
  for (std::uint64_t n = 0; n < cases; ++n) {
    if ((n & 63U) == 0 && elapsed () > max_seconds) {
      std::printf ("BUDGET stopped after %llu of %llu cases\n", static_cast<unsigned long long> (n),
                   static_cast<unsigned long long> (cases));
      break;
    }
    auto const case_seed = pbt::mix (pbt::mix (seed) ^ (first + n * step));
    *number = n;
    arm ();
    auto src = pbt::Source::random (case_seed, record, count);
    pbt::Case c{src, false};
    auto const msg = pbt::run_case (c);
    if (!msg.empty ()) {
      std::printf ("FAILED %s\n", msg.c_str ());
      (void)stats.write (out, elapsed ());
      return exit_failed;
    }
    stats.add (c);
    if (c.is_nontrivial () && !c.is_discarded () && stats.wants_sample (c.hash ())) {
      std::vector<std::uint8_t> const again (record, record + *count);
      auto src2 = pbt::Source::replay (again.data (), again.size ());
      pbt::Case c2{src2, true};
      (void)pbt::run_case (c2);
      stats.sample (c.hash (), c2.description ());
    }
    if (corpus != nullptr && n < 40 && *count < 4096) {
      std::ofstream f{std::string{corpus} + "/seed-" + std::to_string (first) + "-" + std::to_string (n),
                      std::ios::binary};
      f.write (reinterpret_cast<char const*> (record), static_cast<std::streamsize> (*count));
    }
  }
  itimerval const off{};
  (void)setitimer (ITIMER_PROF, &off, nullptr);
  if (!stats.write (out, elapsed ())) {
    return 2;
  }
  std::printf ("DONE %llu\n", static_cast<unsigned long long> (stats.evaluations));
  return 0;
}
