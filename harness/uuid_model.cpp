// Model of the parts of libuuid the repository uses, following its documentation
// (uuid_parse(3), uuid_unparse(3), uuid_generate(3)).  Encoding only; replays link
// the real library.
#include "sx.h"
#include <cstring>
extern "C" {
static inline unsigned char hexv(unsigned char c, unsigned &ok) {
  const unsigned d = c - '0', l = (c | 32) - 'a';
  const bool isd = d <= 9, isl = l <= 5;
  ok &= isd | isl;
  return isd ? d : l + 10;
}
__attribute__((noinline)) int uuid_parse(const char *in, unsigned char *uu) {
  // exactly 36 characters
  long n = 0;
  while (n < 37 && in[n]) n++;
  if (n != 36) return -1;
  unsigned ok = 1;
  unsigned char out[16];
  int k = 0;
  for (int i = 0; i < 36;) {
    if (i == 8 || i == 13 || i == 18 || i == 23) {
      ok &= in[i] == '-';
      i++;
      continue;
    }
    const unsigned char h = hexv(in[i], ok), l = hexv(in[i + 1], ok);
    out[k++] = h * 16 + l;
    i += 2;
  }
  if (!ok) return -1;
  for (int i = 0; i < 16; i++) uu[i] = out[i];
  return 0;
}
static void unparse(const unsigned char *uu, char *out, char a) {
  int p = 0;
  for (int i = 0; i < 16; i++) {
    if (i == 4 || i == 6 || i == 8 || i == 10) out[p++] = '-';
    const unsigned char h = uu[i] >> 4, l = uu[i] & 15;
    out[p++] = h < 10 ? '0' + h : a + (h - 10);
    out[p++] = l < 10 ? '0' + l : a + (l - 10);
  }
  out[p] = 0;
}
__attribute__((noinline)) void uuid_unparse_lower(const unsigned char *uu, char *out) { unparse(uu, out, 'a'); }
__attribute__((noinline)) void uuid_unparse(const unsigned char *uu, char *out) { unparse(uu, out, 'a'); }
__attribute__((noinline)) void uuid_unparse_upper(const unsigned char *uu, char *out) { unparse(uu, out, 'A'); }
static unsigned char gen[8][16];
static int ngen = 0;
// The first eight ids are arbitrary distinct ones; later ones are fixed.
__attribute__((noinline)) void uuid_generate(unsigned char *uu) {
  unsigned char b[16];
  if (ngen < 8) {
    sx_bytes(b, 16, "uuid");
  } else {
    for (int i = 0; i < 16; i++) b[i] = 0xa5;
    b[0] = ngen & 255, b[1] = (ngen >> 8) & 255;
  }
  sx_norace(1);  // libuuid is thread safe
  unsigned any = 0;
  for (int i = 0; i < 16; i++) any |= b[i];
  sx_assume(any != 0);
  for (int k = 0; k < ngen and k < 8; k++) {
    unsigned diff = 0;
    for (int i = 0; i < 16; i++) diff |= gen[k][i] ^ b[i];
    sx_assume(diff != 0);
  }
  if (ngen < 8)
    for (int i = 0; i < 16; i++) gen[ngen][i] = b[i];
  ngen++;
  sx_norace(0);
  for (int i = 0; i < 16; i++) uu[i] = b[i];
}
__attribute__((noinline)) void uuid_generate_random(unsigned char *uu) { uuid_generate(uu); }
__attribute__((noinline)) void uuid_generate_time(unsigned char *uu) { uuid_generate(uu); }
__attribute__((noinline)) int uuid_generate_time_safe(unsigned char *uu) { uuid_generate(uu); return 0; }
__attribute__((noinline)) void uuid_clear(unsigned char *uu) {
  for (int i = 0; i < 16; i++) uu[i] = 0;
}
__attribute__((noinline)) void uuid_copy(unsigned char *d, const unsigned char *s) {
  for (int i = 0; i < 16; i++) d[i] = s[i];
}
__attribute__((noinline)) int uuid_is_null(const unsigned char *uu) {
  unsigned any = 0;
  for (int i = 0; i < 16; i++) any |= uu[i];
  return any == 0;
}
__attribute__((noinline)) int uuid_compare(const unsigned char *a, const unsigned char *b) {
  for (int i = 0; i < 16; i++)
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
}
