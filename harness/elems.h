// Element types used by several modules, each mapped from and to an int.
#pragma once
#include "vf.h"
namespace vf {
struct P3 { uint8_t b[3]; };
inline bool operator== (const P3& a, const P3& b) { return !memcmp (a.b, b.b, 3); }
inline bool operator!= (const P3& a, const P3& b) { return !(a == b); }
inline int p3v (const P3& a) { return a.b[0] | a.b[1] << 8 | a.b[2] << 16; }
inline bool operator< (const P3& a, const P3& b) { return p3v (a) < p3v (b); }
struct P40 { int v; uint8_t pad[36]; };
inline bool operator== (const P40& a, const P40& b) { return !memcmp (&a, &b, sizeof(a)); }
inline bool operator!= (const P40& a, const P40& b) { return !(a == b); }
inline bool operator< (const P40& a, const P40& b) { return a.v < b.v; }

template <typename T> struct Elem;
template <typename T> struct Tag {};
template <> struct Elem<uint8_t> { enum { MOD = 251, ZERO = 0 }; static uint8_t mk (int i) { return i; } static int val (uint8_t v) { return v; } static const char* name (void) { return "u8"; } };
template <> struct Elem<uint16_t> { enum { MOD = 65000, ZERO = 0 }; static uint16_t mk (int i) { return i; } static int val (uint16_t v) { return v; } static const char* name (void) { return "u16"; } };
template <> struct Elem<int> { enum { MOD = 1 << 30, ZERO = 0 }; static int mk (int i) { return i; } static int val (int v) { return v; } static const char* name (void) { return "int"; } };
template <> struct Elem<uint64_t> { enum { MOD = 1 << 30, ZERO = 0 }; static uint64_t mk (int i) { return uint64_t(i) * 0x100000001ull; } static int val (uint64_t v) { return uint32_t(v) == uint32_t (v >> 32) ? int(uint32_t(v)) : -77; } static const char* name (void) { return "u64"; } };
template <> struct Elem<double> { enum { MOD = 1 << 30, ZERO = 0 }; static double mk (int i) { return i * 0.5; } static int val (double v) { return int (v * 2); } static const char* name (void) { return "double"; } };
template <> struct Elem<P3> { enum { MOD = 1 << 23, ZERO = 0 }; static P3 mk (int i) { P3 p; p.b[0] = i; p.b[1] = i >> 8; p.b[2] = i >> 16; return p; } static int val (const P3& p) { return p3v (p); } static const char* name (void) { return "P3"; } };
template <> struct Elem<P40> { enum { MOD = 1 << 30, ZERO = 0 };
    static P40 mk (int i) { P40 p; memset (&p, 0, sizeof(p)); p.v = i; if (i) for (unsigned k = 0; k < sizeof(p.pad); ++k) p.pad[k] = mix (i + k); return p; }
    static int val (const P40& p) { return mk (p.v) == p ? p.v : -77; } static const char* name (void) { return "P40"; } };
template <> struct Elem<ustl::string> { enum { MOD = 1 << 30, ZERO = 0 };
    static size_t gen (int i, char* b) { if (!i) return 0; unsigned n = 1 + i % 29; for (unsigned k = 0; k < n; ++k) b[k] = 'a' + (i + k) % 26; for (unsigned k = 0; k < 11; ++k) { b[n + 10 - k] = '0' + i % 10; i /= 10; } return n + 11; }
    static ustl::string mk (int i) { char b [64]; size_t n = gen (i, b); ustl::string s; if (!n) return s; s.resize (n); for (size_t k = 0; k < n; ++k) s[k] = b[k]; return s; }
    static bool lt (int x, int y) { char a[64], b[64]; size_t n = gen (x, a), m = gen (y, b); int c = memcmp (a, b, n < m ? n : m); return c ? c < 0 : n < m; }
    static int val (const ustl::string& s) { if (s.empty()) return 0; if (s.size() < 12) return -77; int v = 0; for (unsigned k = 0; k < 11; ++k) { char c = s[s.size() - 11 + k]; if (c < '0' || c > '9') return -77; v = v * 10 + (c - '0'); } return mk (v) == s ? v : -77; }
    static const char* name (void) { return "string"; } };
}
