// Sizes and lengths to sweep.
#pragma once
#include <string>
#include "sym.h"
static const unsigned SIZES[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17, 20, 24, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 300 };
static const unsigned LENS[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 31, 32, 33, 40, 47, 48, 49, 62, 63, 64, 65, 66, 80, 99, 100, 101, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097, 5000 };
inline unsigned sweepSize(unsigned max = 300) { unsigned k = 0; while (k < sizeof SIZES / 4 && SIZES[k] <= max) k++; return SIZES[sym_choice(k, "size")]; }
inline unsigned sweepLen(unsigned max = 5000) { unsigned k = 0; while (k < sizeof LENS / 4 && LENS[k] <= max) k++; return LENS[sym_choice(k, "length")]; }
// a string of the given length: one arbitrary byte (first, in the middle or last), or one arbitrary letter when the string is very long
inline std::string sweepStr(unsigned n) { std::string s(n, 'x'); if (!n) return s; for (unsigned i = 0; i < n; i++) s[i] = (char)('a' + i % 23); unsigned p = n <= 130 ? sym_choice(n < 3 ? n : 3, "at") : n % 3; p = p == 0 ? n - 1 : p == 1 ? 0 : n / 2; sym_bytes(&s[p], 1, "char"); if (n > 130 && n != 300 && n != 1025 && n != 4097) sym_assume((s[p] >= 'a') & (s[p] <= 'z')); return s; }
