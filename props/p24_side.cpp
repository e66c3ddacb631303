// Runs an operation in the build configuration which this file and the library are compiled with, into a shared object.
#include "../gen/ops.hpp"
#include "../engine/engine.hpp"
#include "p24_side.hpp"

namespace {

std::string guarded (p24::Request const& r) {
  conv::Holder h;
  conv::Holder h2;
  auto p = h.make (*r.p);
  auto q = h2.make (*r.q);
  std::string out;
  if (r.parse) {
    if (auto x = uri::split_reference (r.a)) {
      p = *x;
      out += "parsed ";
    }
    if (auto x = uri::split_reference (r.b)) {
      q = *x;
    }
  }
  ops::Op const op{static_cast<ops::Kind> (r.kind), r.a, r.b, r.cps, &p, &q, r.n};
  return out + ops::run (op) ();
}

}  // namespace

extern "C" __attribute__ ((visibility ("default"))) void p24_run (p24::Request const* r, void (*take) (void*, char const*, std::size_t),
                                                                  void* context) {
  std::string out;
  try {
    out = guarded (*r);
  } catch (std::exception const& ex) {
    out = std::string{"exception "} + ex.what ();
  } catch (...) {
    out = "exception";
  }
  take (context, out.data (), out.size ());
}

// The engine's, which the reference models need, asks for one.
pbt::Property const pbt::property{"P24", "", nullptr};
