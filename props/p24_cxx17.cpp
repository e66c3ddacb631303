// Transcoders as they are in C++17, in a namespace of their own.
#define ICUBABY_INSIDE_NS cxx17
#include "uri/icubaby.hpp"
#define P24_ICUBABY cxx17::icubaby
#include "p24_transcode.hpp"

extern "C" __attribute__ ((visibility ("default"))) void p24_transcode (p24::Transcode const* q, void (*take) (void*, char const*, std::size_t),
                                                                        void* context) {
  auto const out = p24::transcode (*q);
  take (context, out.data (), out.size ());
}
