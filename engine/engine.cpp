#include "engine.hpp"

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <exception>
#include <typeinfo>

namespace pbt {

std::uint64_t mix (std::uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30U)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27U)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31U);
}

Source Source::random (std::uint64_t seed, std::uint8_t* record, std::size_t* count) {
  Source s;
  s.random_ = true;
  s.state_ = seed;
  s.record_ = record;
  s.count_ = count;
  *count = 0;
  return s;
}
Source Source::replay (std::uint8_t const* data, std::size_t size) {
  Source s;
  s.data_ = data;
  s.size_ = size;
  return s;
}

std::uint8_t Source::byte () {
  if (!random_) {
    return pos_ < size_ ? data_[pos_++] : std::uint8_t{0};
  }
  if (*count_ >= max_choices) {
    return 0;  // out of choices: everything from here on is the simplest.
  }
  if (pool_bytes_ == 0) {
    state_ += 0x9E3779B97F4A7C15ULL;
    pool_ = mix (state_);
    pool_bytes_ = 8;
  }
  auto const b = static_cast<std::uint8_t> (pool_);
  pool_ >>= 8U;
  --pool_bytes_;
  record_[(*count_)++] = b;
  return b;
}

std::uint64_t Source::below (std::uint64_t n) {
  if (n <= 1) {
    return 0;
  }
  if (n <= 256) {
    return byte () % n;
  }
  std::uint64_t v = 0;
  unsigned bytes = 2;
  while (bytes < 8 && (n - 1) >> (bytes * 8U) != 0) {
    ++bytes;
  }
  for (unsigned i = 0; i < bytes; ++i) {
    v = (v << 8U) | byte ();
  }
  return v % n;
}

std::size_t Source::length (std::size_t max) {
  auto const b = byte ();
  std::size_t limit = max;
  if (b < 128) {
    limit = 4;
  } else if (b < 208) {
    limit = 12;
  } else if (b < 244) {
    limit = 40;
  }
  return static_cast<std::size_t> (below (std::min (limit, max) + 1));
}

std::size_t Source::weighted (std::initializer_list<unsigned> weights) {
  unsigned total = 0;
  for (auto w : weights) {
    total += w;
  }
  auto v = below (total);
  std::size_t i = 0;
  for (auto w : weights) {
    if (v < w) {
      return i;
    }
    v -= w;
    ++i;
  }
  return 0;
}

std::string show (std::string_view s) {
  std::string r = "\"";
  std::size_t n = 0;
  for (char const ch : s) {
    if (++n > 600) {
      r += "...(" + std::to_string (s.size ()) + " bytes)";
      break;
    }
    auto const c = static_cast<unsigned char> (ch);
    if (c == '"' || c == '\\') {
      r += '\\';
      r += ch;
    } else if (c < 0x20 || c >= 0x7F) {
      char buf[8];
      (void)std::snprintf (buf, sizeof (buf), "\\x%02X", c);
      r += buf;
    } else {
      r += ch;
    }
  }
  return r + '"';
}

std::string show_units (std::u32string_view s) {
  std::string r = "[";
  std::size_t n = 0;
  for (char32_t const c : s) {
    if (++n > 150) {
      r += " ...(" + std::to_string (s.size ()) + " units)";
      break;
    }
    char buf[16];
    (void)std::snprintf (buf, sizeof (buf), "%s%X", n > 1 ? " " : "", static_cast<unsigned> (c));
    r += buf;
  }
  return r + ']';
}

void Case::key (std::string_view s) {
  std::uint64_t h = hash_ ^ (s.size () * 0xD6E8FEB86659FD93ULL);
  std::size_t i = 0;
  for (; i + 8 <= s.size (); i += 8) {
    std::uint64_t w = 0;
    std::memcpy (&w, s.data () + i, 8);
    h = mix (h ^ w);
  }
  std::uint64_t w = 0;
  if (s.size () > i) {
    std::memcpy (&w, s.data () + i, s.size () - i);
  }
  hash_ = mix (h ^ w);
}
void Case::key (std::uint64_t v) {
  hash_ = mix (hash_ ^ mix (v));
}
void Case::note (char const* name, std::string_view value) {
  key (value);
  if (trace_) {
    emit (name, show (value));
  }
}
void Case::note (char const* name, std::u32string_view value) {
  key (std::string_view{reinterpret_cast<char const*> (value.data ()), value.size () * sizeof (char32_t)});
  if (trace_) {
    emit (name, show_units (value));
  }
}
void Case::note (char const* name, std::uint64_t value) {
  key (value);
  if (trace_) {
    emit (name, std::to_string (value));
  }
}
void Case::emit (char const* name, std::string const& value) {
  std::string line = std::string{name} + "=" + value;
  if (line.size () > 3000) {
    line.resize (3000);
    line += "...";
  }
  if (!description_.empty ()) {
    description_ += ", ";
  }
  description_ += line;
  if (live_) {
    (void)std::printf ("  %s\n", line.c_str ());
    (void)std::fflush (stdout);
  }
}

std::string run_case (Case& c) {
  try {
    property.run (c);
  } catch (Failure const& f) {
    return f.message.empty () ? "failed" : f.message;
  } catch (std::exception const& ex) {
    return std::string{"unexpected exception "} + typeid (ex).name () + ": " + ex.what ();
  } catch (...) {
    return "unexpected exception of unknown type";
  }
  return {};
}

// (AddressSanitizer takes a block of no bytes for one of a single byte.)
Exact::Exact (std::string_view s) : base_{new char[s.empty () ? 1U : s.size ()]}, p_{s.empty () ? base_ + 1 : base_}, n_{s.size ()} {
  std::copy (s.begin (), s.end (), p_);
}
Exact::~Exact () {
  delete[] base_;
}
bool Exact::holds (std::string_view v) const {
  auto const b = reinterpret_cast<std::uintptr_t> (p_);
  auto const d = reinterpret_cast<std::uintptr_t> (v.data ());
  return d >= b && d + v.size () <= b + n_;
}

void Stats::compact () {
  std::sort (hashes_.begin (), hashes_.end ());
  hashes_.erase (std::unique (hashes_.begin (), hashes_.end ()), hashes_.end ());
  compact_at_ = std::max (compact_at_, hashes_.size () * 2);
}

void Stats::add (Case const& c) {
  ++evaluations;
  if (c.is_discarded ()) {
    ++discarded;
    return;
  }
  for (char const* l : c.labels ()) {
    ++labels_[l];
  }
  if (c.is_nontrivial ()) {
    ++nontrivial;
    hashes_.push_back (c.hash ());
    if (hashes_.size () >= compact_at_) {
      compact ();
    }
  }
}

bool Stats::wants_sample (std::uint64_t hash) const {
  return samples_.size () < 6 || mix (hash) < samples_.rbegin ()->first;
}
void Stats::sample (std::uint64_t hash, std::string const& description) {
  samples_[mix (hash)] = description.substr (0, 1200);
  while (samples_.size () > 6) {
    samples_.erase (std::prev (samples_.end ()));
  }
}

std::string json_string (std::string_view s) {
  std::string r = "\"";
  for (char const ch : s) {
    auto const c = static_cast<unsigned char> (ch);
    if (c == '"' || c == '\\') {
      r += '\\';
      r += ch;
    } else if (c < 0x20 || c >= 0x7F) {
      char buf[8];
      (void)std::snprintf (buf, sizeof (buf), "\\u%04X", c);
      r += buf;
    } else {
      r += ch;
    }
  }
  return r + '"';
}

// Writes PATH (JSON) and PATH.hashes (the identities of the distinct non-trivial cases, sorted, 8 bytes each).
bool Stats::write (char const* path, double wall) const {
  const_cast<Stats*> (this)->compact ();
  std::FILE* f = std::fopen (path, "w");
  if (f == nullptr) {
    return false;
  }
  (void)std::fprintf (f, "{\"evaluations\": %llu, \"discarded\": %llu, \"nontrivial\": %llu, \"wall_s\": %.3f,\n",
                      static_cast<unsigned long long> (evaluations), static_cast<unsigned long long> (discarded),
                      static_cast<unsigned long long> (nontrivial), wall);
  (void)std::fprintf (f, " \"rule\": %s,\n \"labels\": {", json_string (property.rule).c_str ());
  char const* sep = "";
  for (auto const& [k, v] : labels_) {
    (void)std::fprintf (f, "%s%s: %llu", sep, json_string (k).c_str (), static_cast<unsigned long long> (v));
    sep = ", ";
  }
  (void)std::fprintf (f, "},\n \"samples\": [");
  sep = "";
  for (auto const& [k, v] : samples_) {
    (void)std::fprintf (f, "%s%s", sep, json_string (v).c_str ());
    sep = ",\n  ";
  }
  (void)std::fprintf (f, "]}\n");
  (void)std::fclose (f);
  std::string const hp = std::string{path} + ".hashes";
  f = std::fopen (hp.c_str (), "wb");
  if (f == nullptr) {
    return false;
  }
  (void)std::fwrite (hashes_.data (), sizeof (std::uint64_t), hashes_.size (), f);
  (void)std::fclose (f);
  return true;
}

}  // namespace pbt
