// Independent GridConnect encoder and parser (documented form, upper case).
#pragma once
#include <GridConnect.h>
#include <string>
#include <cstring>
namespace gc {
using VLCB::CANFrame;
inline std::string hex(uint64_t v, int n) { std::string s; while (n--) s += "0123456789ABCDEF"[(v >> (4 * n)) & 15]; return s; }
inline std::string text(const CANFrame &f)
{
  if (f.len > 8 || f.id > (f.ext ? 0x1FFFFFFFu : 0x7FFu)) return "";
  std::string s = f.ext ? ":X" + hex((uint64_t)((f.id >> 18) & 0x7FF) << 21 | (f.id & 0x3FFFF), 8) : ":S" + hex((f.id & 0x7FF) * 32, 4);
  s += f.rtr ? 'R' : 'N';
  for (int i = 0; i < f.len; ++i) s += hex(f.data[i], 2);
  return s + ';';
}
inline int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline bool parse(const char *s, size_t n, CANFrame &f)
{
  memset(&f, 0, sizeof f);
  if (n < 3 || s[0] != ':' || s[n - 1] != ';' || (s[1] != 'S' && s[1] != 'X')) return false;
  size_t d = s[1] == 'X' ? 8 : 4;
  if (n < 2 + d + 2) return false;
  uint32_t id = 0; for (size_t i = 0; i < d; ++i) { int h = hv(s[2 + i]); if (h < 0) return false; id = id * 16 + h; }
  f.ext = s[1] == 'X'; f.id = f.ext ? ((id >> 21) << 18) | (id & 0x3FFFF) : id >> 5;
  char k = s[2 + d]; if (k != 'N' && k != 'R') return false;
  f.rtr = k == 'R';
  size_t m = n - (3 + d) - 1; if (m % 2 || m > 16) return false;
  f.len = m / 2;
  for (size_t i = 0; i < m; i += 2) { int a = hv(s[3 + d + i]), b = hv(s[4 + d + i]); if (a < 0 || b < 0) return false; f.data[i / 2] = a * 16 + b; }
  return true;
}
inline std::string show(const std::string &s) { std::string r; for (unsigned char c : s) { if (c >= 32 && c < 127) r += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02X", c); r += b; } } return "\"" + r + "\""; }
inline std::string show(const CANFrame &f) { char b[120]; int k = snprintf(b, sizeof b, "id=%x%s%s len=%d", (unsigned)f.id, f.ext ? " ext" : "", f.rtr ? " rtr" : "", f.len); for (int i = 0; i < f.len && i < 8; ++i) k += snprintf(b + k, sizeof b - k, " %02X", f.data[i]); return b; }
inline bool same(const CANFrame &a, const CANFrame &b) { return a.id == b.id && a.ext == b.ext && a.rtr == b.rtr && a.len == b.len && !memcmp(a.data, b.data, a.len); }
inline CANFrame frame(uint32_t id, bool ext, bool rtr, int len, int salt = 0)
{ CANFrame f; memset(&f, 0, sizeof f); f.id = id; f.ext = ext; f.rtr = rtr; f.len = len; for (int i = 0; i < 8; ++i) f.data[i] = 0x1F * (i + 1 + salt) + 0xA0; return f; }
}
