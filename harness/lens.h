/* Lengths at which fixed buffers, doubling buffers and memory chunks usually end. */
#ifndef LENS_H
#define LENS_H
#include <string.h>
#ifdef VAST
#define LX 66000
static const int LENS[] = { 4098, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 65800 };
#else
#define LX 0
static const int LENS[] = { 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 79, 80, 99, 100, 126, 127, 128, 129, 199, 200, 254, 255, 256, 257, 510, 511, 512, 1022, 1023, 1024, 1025, 2048, 4063, 4064, 4095, 4096, 4097 };
#endif
#define NLENS ((int)(sizeof LENS / sizeof *LENS))
static int a_length(const char *n) { return LENS[vp_choice(NLENS, n)]; }
/* n bytes of visible text */
static char *a_text(char *b, int n, int seed) { int i; for (i = 0; i < n; i++) b[i] = 'a' + (i * 7 + i / 26 + seed) % 26; b[n] = 0; return b; }
#endif
