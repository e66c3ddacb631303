#ifndef VERIF_PROPS_P24_SIDE_HPP
#define VERIF_PROPS_P24_SIDE_HPP

#include <string_view>

#include "../ref/uri_ref.hpp"

namespace p24 {

struct Request {
  unsigned kind;
  std::string_view a;
  std::string_view b;
  std::u32string_view cps;
  ref::Parts const* p;
  ref::Parts const* q;
  unsigned n;
  bool parse;
};
using Run = void (*) (Request const*, void (*) (void*, char const*, std::size_t), void*);

}  // namespace p24
#endif
