// A log line as its reader sees it: format and string arguments become one text; numbers stay (possibly symbolic) values
// behind one-byte marks, so that it does not matter which piece of the text came from where.
#pragma once
#include <string.h>
struct EnvLogArg { int kind; long i; const char* s; double d; };
static char LT[1024]; static long LI[16]; static double LD[16]; static int ln_;
static void log_text(const char* f, const EnvLogArg* a, int n) {
    int o = 0, k = 0; ln_ = 0;
    for (; *f && o < 1000; f++) {
        if (*f == '{') {
            if (f[1] == '{') { LT[o++] = '{'; f++; continue; }
            while (*f && *f != '}') f++;
            if (k >= n) break;
            const EnvLogArg& x = a[k++];
            if (x.kind == 1) { for (const char* s = x.s; *s && o < 1000; s++) LT[o++] = *s; }
            else if (ln_ < 16) { LI[ln_] = x.kind == 2 ? (long)x.d : x.i; LD[ln_] = x.kind == 2 ? x.d : x.i; LT[o++] = (char)(1 + ln_); if (LT[o - 1] >= '\t') LT[o - 1] += 2; ln_++; }
        } else LT[o++] = *f;
    }
    LT[o] = 0;
}
// the numbers in the text from p on: marks or digits; returns how many
static int log_numbers(const char* p, long* v, int max) {
    int n = 0;
    while (*p && n < max) {
        unsigned char c = *p;
        if (c < 20 && c != '\t' && c != '\n') { int m = c > '\n' ? c - 3 : c - 1; v[n++] = LI[m]; p++; }
        else if (c >= '0' && c <= '9') { long x = 0; while (*p >= '0' && *p <= '9') x = x * 10 + (*p++ - '0'); v[n++] = x; }
        else p++;
    }
    return n;
}
