// Entry point of the coverage-guided stage. The statistics are written to $PBT_OUT on exit.
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>

#include "engine.hpp"

namespace {
pbt::Stats& stats () {
  static auto* const s = new pbt::Stats;
  return *s;
}
}  // namespace

extern "C" int LLVMFuzzerInitialize (int*, char***) {
  (void)stats ();
  (void)std::atexit ([] {
    if (char const* const out = std::getenv ("PBT_OUT")) {
      (void)stats ().write (out, 0.0);
    }
  });
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput (std::uint8_t const* data, std::size_t size) {
  auto src = pbt::Source::replay (data, size);
  pbt::Case c{src, false};
  auto const msg = pbt::run_case (c);
  if (!msg.empty ()) {
    std::fprintf (stderr, "FAILED %s\n", msg.c_str ());
    (void)std::fflush (stderr);
    std::abort ();
  }
  stats ().add (c);
  if (c.is_nontrivial () && !c.is_discarded () && stats ().wants_sample (c.hash ())) {
    auto src2 = pbt::Source::replay (data, size);
    pbt::Case c2{src2, true};
    (void)pbt::run_case (c2);
    stats ().sample (c.hash (), c2.description ());
  }
  return 0;
}
