#pragma once
#include <stdint.h>
#include <stddef.h>
// what one run of a case produced; type names are kept apart because the alias option changes them
struct Out {
  char b[4000]; size_t n = 0; char types[2000]; size_t nt = 0; int threw = 0, caught = 0; uint64_t after = 0;
  void ch(char c) { if (n < sizeof b) b[n++] = c; }
  void type(const char* s, size_t k) { for (size_t i = 0; i < k && nt < sizeof types; i++) types[nt++] = s[i]; if (nt < sizeof types) types[nt++] = 0; }
};
#define OPTS(cfg) extern "C" void opts_lines_##cfg(const char* const*, const size_t*, size_t, Out*); extern "C" void opts_names_##cfg(Out*); extern "C" void opts_throw_##cfg(uint32_t, const char*, size_t, Out*); extern "C" void opts_conv_##cfg(uint32_t, const char*, size_t, Out*); extern "C" void opts_history_##cfg(const unsigned char*, size_t, const unsigned char*, Out*);
OPTS(standard) OPTS(noassert) OPTS(nocatch) OPTS(alias)
