// P12: decoding undoes encoding.
#include "../gen/parts_gen.hpp"
#include "uri/parts.hpp"

namespace {

template <typename Store>
void check (pbt::Case& c, ref::Parts const& m, bool& changed) {
  gen::PartsHolder h{c.src};
  auto const p = h.make (m);
  Store store;
  gen::dirty (c.src, store);
  auto const encoded = uri::encode (store, p);
  auto const em = conv::own (encoded);
  changed = ref::show (em) != ref::show (m);
  bool const valid = p.valid ();
  c.label_if (valid, "valid");
  if (valid) {
    c.check (encoded.valid (), [&] { return "valid components became invalid: " + ref::show (em); });
  }
  auto const plain = [&] (std::string const& s, char const* what) {
    for (char const ch : s) {
      auto const b = static_cast<unsigned char> (ch);
      c.check (b > 0x20 && b < 0x7F,
               [&] { return std::string{"the encoded "} + what + " contains an unescaped byte: " + pbt::show (s); });
    }
  };
  if (em.authority && em.authority->userinfo) {
    plain (*em.authority->userinfo, "userinfo");
  }
  for (auto const& s : em.path.segments) {
    plain (s, "path segment");
  }
  if (em.query) {
    plain (*em.query, "query");
  }
  if (em.fragment) {
    plain (*em.fragment, "fragment");
  }
  Store store2;
  gen::dirty (c.src, store2);
  auto const decoded = uri::decode (store2, encoded);
  c.check (std::holds_alternative<uri::parts> (decoded), [&] {
    return "decoding encoded components failed: " + std::get<std::error_code> (decoded).message () + " for " +
           ref::show (em);
  });
  auto const& back = std::get<uri::parts> (decoded);
  conv::same (c, conv::own (back), m, "decode(encode(parts))");
  c.check (back == p, "decode(encode(parts)) is not equal to the original");
}

void run (pbt::Case& c) {
  auto const m = gen::codec_parts (c.src, gen::HostKind::round_trip);
  c.note ("parts", ref::show (m));
  bool changed = false;
  if (c.src.flip ()) {
    check<std::vector<char>> (c, m, changed);
  } else {
    check<std::string> (c, m, changed);
  }
  if (changed) {
    c.nontrivial ();
  }
  c.label_if (m.authority && changed, "with authority");
}

}  // namespace

pbt::Property const pbt::property{
  "P12",
  "A case is a set of components (any bytes in userinfo, path, query and fragment; a host of UTF-8 labels not starting with "
  "\"xn--\"; scheme and port without percent signs), encoded into one store and decoded into another. Non-trivial: encoding "
  "changes something.",
  run};
