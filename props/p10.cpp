// P10: encoding of components.
#include "../gen/known.hpp"
#include "../gen/parts_gen.hpp"
#include "uri/parts.hpp"

namespace {

template <typename Store>
void check (pbt::Case& c, ref::Parts const& m, ref::Parts const& expected, bool host_known, char const* what) {
  gen::PartsHolder h{c.src};
  auto const p = h.make (m);
  Store store;
  gen::dirty (c.src, store);
  auto const r = uri::encode (store, p);
  auto actual = conv::own (r);
  if (actual.authority && !host_known) {
    actual.authority->host = expected.authority->host;
  }
  conv::same (c, actual, expected, what);
  gen::check_views (c, r, h, store, what);
  conv::same (c, conv::own (p), m, "the components given to encode");
  // It stays readable for as long as the store is there: encode something else elsewhere, then look again.
  Store other;
  (void)uri::encode (other, p);
  auto later = conv::own (r);
  if (later.authority && !host_known) {
    later.authority->host = expected.authority->host;
  }
  conv::same (c, later, expected, what);
  // The same store again.
  auto const r2 = uri::encode (store, p);
  gen::check_views (c, r2, h, store, what);
  auto actual2 = conv::own (r2);
  if (actual2.authority && !host_known) {
    actual2.authority->host = expected.authority->host;
  }
  conv::same (c, actual2, expected, "encoding again into the same store");
}

void run (pbt::Case& c) {
  (void)known::fragment_grave ();
  auto const m = gen::codec_parts (c.src, gen::HostKind::idn);
  c.note ("parts", ref::show (m));
  ref::Parts e = m;
  bool changed = false;
  auto const enc = [&] (std::string& s, ref::Set set) {
    auto t = ref::pct_encode (s, set);
    changed = changed || t != s;
    s = std::move (t);
  };
  auto const oenc = [&] (ref::ostring& s, ref::Set set) {
    if (s) {
      enc (*s, set);
    }
  };
  oenc (e.scheme, ref::Set::none);
  bool host_known = true;
  if (e.authority) {
    oenc (e.authority->userinfo, ref::Set::userinfo);
    oenc (e.authority->port, ref::Set::none);
    auto const host = ref::from_utf8 (e.authority->host);
    host_known = host.has_value ();
    c.label_if (!host_known, "host is not UTF-8 (its result is not compared)");
    if (host) {
      auto t = ref::host_encode (*host);
      c.label_if (t != e.authority->host, "host changed");
      changed = changed || t != e.authority->host;
      e.authority->host = std::move (t);
    }
  }
  for (auto& seg : e.path.segments) {
    enc (seg, ref::Set::path);
  }
  oenc (e.query, ref::Set::query);
  oenc (e.fragment, ref::Set::fragment);
  if (changed) {
    c.nontrivial ();
  }
  c.label_if (m.path.segments.size () > 26, "more than 26 segments");
  if (c.src.flip ()) {
    check<std::vector<char>> (c, m, e, host_known, "encode into vector");
  } else {
    check<std::string> (c, m, e, host_known, "encode into string");
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P10",
  "A case is a set of components (each absent, empty, plain or with bytes to escape; internationalised hosts; up to a hundred "
  "segments) encoded into a vector or string store with earlier content, and compared field by field with the models; every "
  "non-empty view has to lie in the caller's text or in the store. Non-trivial: at least one component changes.",
  run};
