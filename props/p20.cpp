// P20: conversion of a path to a filesystem path.
#include <filesystem>

#include "../gen/conv.hpp"
#include "../gen/uri_gen.hpp"
#include "../ref/abnf.hpp"

namespace {

std::string collapse (std::string_view s) {
  std::string r;
  for (char const ch : s) {
    if (ch != '/' || r.empty () || r.back () != '/') {
      r += ch;
    }
  }
  return r;
}

void check (pbt::Case& c, uri::parts const& p, std::string_view text) {
  auto const m = ref::decompose (text).path;
  auto const str = ref::path_string (m);
  auto const fs = static_cast<std::filesystem::path> (p.path);
  c.equal (fs.generic_string (), collapse (str), "the generic form");
  c.check (fs.is_absolute () == str.starts_with ('/'), "absolute or not");
  c.check (fs.has_root_directory () == str.starts_with ('/'), "the root directory");
  std::vector<std::string> expected;
  for (auto const& s : m.segments) {
    if (!s.empty ()) {
      expected.push_back (s);
    }
  }
  std::vector<std::string> actual;
  for (auto const& e : fs.relative_path ()) {
    if (!e.empty ()) {
      actual.push_back (e.generic_string ());
    }
  }
  c.check (actual == expected, "the sequence of non-empty segments");
  c.check (expected.empty () || fs.has_filename () == !str.ends_with ('/'), "the trailing slash");
  c.check (fs == std::filesystem::path{str}, "differs from the filesystem path of the text");
}

void run (pbt::Case& c) {
  auto& s = c.src;
  std::string text;
  bool near = false;
  switch (s.weighted ({4, 2, 2})) {
  case 0: {
    auto m = gen::parts (s, s.flip (), {s.flip (), 40});
    if (s.chance (2, 3)) {
      // Rich in empty segments.
      for (auto& g : m.path.segments) {
        if (s.chance (1, 3)) {
          g.clear ();
        }
      }
    }
    text = ref::compose (m);
    break;
  }
  case 1: text = gen::uri (s, s.flip ()); break;
  default: text = gen::uri_like (s, c, &near); break;
  }
  c.note ("text", text);
  pbt::Exact const in{text};
  auto const r = uri::split_reference (in);
  auto const u = uri::split (in);
  if (!r && !u) {
    c.discard ();
    return;
  }
  if (r) {
    check (c, *r, text);
  }
  if (u) {
    check (c, *u, text);
  }
  auto const m = ref::decompose (text);
  if (!m.path.segments.empty ()) {
    c.nontrivial ();
  }
  auto const str = ref::path_string (m.path);
  c.label_if (str.find ("//") != std::string::npos, "empty segments");
  c.label_if (str.ends_with ('/'), "trailing slash");
  c.label (str.starts_with ('/') ? "absolute" : "relative");
  c.label_if (m.authority.has_value (), "authority");
}

}  // namespace

pbt::Property const pbt::property{
  "P20",
  "A case is a text that parses, rich in empty, dot and trailing segments; the filesystem path is compared with the text of the "
  "URI's path. Non-trivial: the path has a segment (texts that do not parse are discarded).",
  run};
