// C16: GridConnect text and CAN frames convert into each other without loss.
#include "engine.h"
#include "alpha.h"
#include "gc.h"
using namespace gc;
static char *g_tx, *g_rx[4];
static void decode(const std::string &s)
{
  mc::countCheck();
  // the text ends exactly at the end of its memory block
  char *p = (char *)mc::arenaAlloc(s.size() + 1, false); memcpy(p, s.c_str(), s.size() + 1);
  CANFrame got, want; memset(&got, 0xA5, sizeof got);
  bool ok = VLCB::decodeGridConnect(p, &got), exp = parse(s.data(), s.size(), want);
  if (memcmp(p, s.c_str(), s.size() + 1)) mc::fail("decoding changed the text %s", show(s).c_str());
  mc::arenaFree(p);
  if (ok != exp) mc::fail("%s %s", show(s).c_str(), ok ? "was accepted" : "was rejected");
  if (ok && !same(got, want)) mc::fail("%s decoded to %s, expected %s", show(s).c_str(), show(got).c_str(), show(want).c_str());
}
static void encode(CANFrame f)
{
  mc::countCheck();
  std::string want = text(f); CANFrame g = f;
  memset(g_tx, '#', 30);
  bool ok = VLCB::encodeGridConnect(g_tx, &f);
  if (memcmp(&f, &g, sizeof f)) mc::fail("encoding changed the frame %s", show(g).c_str());
  if (ok != !want.empty()) mc::fail("%s %s", show(g).c_str(), ok ? "was encoded" : "was refused");
  g_tx[29] = 0; // (the longest text is 28 characters)
  if (want != g_tx) mc::fail("%s encoded as %s, expected %s", show(g).c_str(), show(g_tx).c_str(), show(want).c_str());
  if (!ok) return;
  CANFrame back; memset(&back, 0xA5, sizeof back);
  if (!VLCB::decodeGridConnect(g_tx, &back) || !same(back, f)) mc::fail("%s does not come back from %s", show(g).c_str(), show(g_tx).c_str());
}
static std::vector<std::string> tmpl;
static const char cls[] = {':', ';', 'S', 'X', 'N', 'R', '0', '9', 'A', 'F', 'G', 'a', 'f', 's', 'x', 'n', 'r', ' ', '/', '@', '`', '-', '+', '\n', '\x80', '\xFF'};
enum { NC = sizeof cls };
int main(int argc, char **argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
  mc::checkArena = true;
  std::vector<mc::Scenario> sc;
  auto setup = [](int) { g_tx = (char *)mc::arenaAlloc(30, true); };
  static OpList e;
  e.add(2 * 9 * 32, [](uint64_t k) { for (int i = 0; i < 64; ++i) encode(frame((k / 18) * 64 + i, false, k & 1, k / 2 % 9, i)); }, [](uint64_t k) { return "64 standard ids from " + std::to_string(k / 18 * 64) + " length " + std::to_string(k / 2 % 9); });
  // extended ids: all values of the low 18 bits and of the high 11 bits, and of bits 10 to 23
  e.add(2 * 1024, [](uint64_t k) { for (int i = 0; i < 256; ++i) { encode(frame((k / 2) * 256 + i, true, k & 1, i % 9, k)); encode(frame(0x1FFC0000 | ((k / 2) * 256 + i), true, k & 1, (i + 1) % 9, k)); } }, [](uint64_t k) { return "extended ids from " + std::to_string(k / 2 * 256); });
  e.add(2048, [](uint64_t k) { for (uint32_t lo : {0x0u, 0x3FFFFu, 0x15555u, 0x2AAAAu, 0x20000u, 0x10000u}) for (int l = 0; l < 9; ++l) encode(frame((k << 18) | lo, true, k & 1, l, k)); }, [](uint64_t k) { return "extended ids with high bits " + std::to_string(k); });
  e.add(1 << 14, [](uint64_t k) { for (uint32_t lo : {0u, 0x1F0003FFu, 0x0F0001AAu}) encode(frame((k << 10) ^ lo, true, false, k % 9, k)); }, [](uint64_t k) { return "extended ids with middle bits " + std::to_string(k); });
  // ids too large
  e.add(21, [](uint64_t k) { for (int i = 0; i < 2048; i += 37) for (uint32_t low : {0u, 0x7FFu}) encode(frame((1u << (11 + k)) | (low ? low : i), false, i & 1, 2)); }, [](uint64_t k) { return "standard ids with bit " + std::to_string(11 + k); });
  e.add(3, [](uint64_t k) { for (uint32_t low : {0u, 0x1FFFFFFFu, 5u}) encode(frame((1u << (29 + k)) | low, true, false, 2)); encode(frame(0xFFFFFFFF, true, false, 2)); encode(frame(0xFFFFFFFF, false, false, 2)); }, [](uint64_t k) { return "extended ids with bit " + std::to_string(29 + k); });
  // every byte value at every position; pairs of neighbours; every length
  e.add(8 * 256, [](uint64_t k) { for (int l = 0; l <= 8; ++l) for (int x = 0; x < 4; ++x) { CANFrame f = frame(x & 1 ? 0x12345678 : 0x5A5, x & 1, x & 2, l); f.data[k / 256] = k; encode(f); } }, [](uint64_t k) { return "data byte " + std::to_string(k / 256) + " value " + std::to_string(k % 256); });
  e.add(65536, [](uint64_t k) { CANFrame f = frame(0x5A5, false, false, 2); f.data[0] = k >> 8; f.data[1] = k; encode(f); }, [](uint64_t k) { return "data " + hex(k, 4); });
  e.add(256, [](uint64_t k) { for (int x = 0; x < 4; ++x) encode(frame(x & 1 ? 0x12345678 : 0x5A5, x & 1, x & 2, k)); }, [](uint64_t k) { return "length " + std::to_string(k); });
  sc.push_back(scen("encoding", 1, &e, 1, setup));
  // ---- decoding
  for (int ext = 0; ext < 2; ++ext) for (int l = 0; l <= 8; ++l) for (int rtr = 0; rtr < (l < 3 ? 2 : 1); ++rtr) tmpl.push_back(text(frame(ext ? 0x1A2B3C4D : 0x5A7, ext, rtr, l)));
  // truncated in the middle, over-long, several ends
  for (const char *s : {"", ":", ":S", ":X", ";", ":;", ":S;", ":X;", ":S0000", ":S0000N", ":X00000000", ":X00000000N", ":S0020R3;", ":S0020R0;", ":X00200001R8;", ":S0020N;;", ":S0020N01;;", ":S0020N;01;", ":S:S0020N;", ":S0020N000102030405060708;", ":X00200001N000102030405060708;", ":S0020N0001020304050607080900112233445566778899;", ":S00200N;", ":S002N;", ":X0020000N;", " :S0020N;", ":S0020N; ", ":S0020N 1;", ":S0020N+1;", ":S+020N;", ":S0x20N;", ":X0x200000N;", ":S0020N1;2;"}) tmpl.push_back(s);
  static OpList d;
  d.add(tmpl.size() * 32, [](uint64_t k) { // every byte at one position; cut; delete; insert; repeat
    const std::string &t = tmpl[k / 32]; size_t p = k % 32; if (p > t.size()) return;
    decode(t); decode(t.substr(0, p)); decode(t.substr(p));
    if (p < t.size()) { std::string u = t; u.erase(p, 1); decode(u); u = t; u.insert(p, 1, t[p]); decode(u); if (p + 1 < t.size()) { u = t; std::swap(u[p], u[p + 1]); decode(u); } }
    for (int c = 1; c < 256; ++c) { std::string u = t; if (p < t.size()) { u[p] = c; decode(u); } u = t; u.insert(p, 1, (char)c); decode(u); }
    decode(t + t.substr(p)); },
    [](uint64_t k) { return "one change of " + show(tmpl[k / 32]) + " at " + std::to_string(k % 32); });
  d.add(tmpl.size() * 32 * 32, [](uint64_t k) { // two changes
    const std::string &t = tmpl[k / 1024]; size_t p = k / 32 % 32, q = k % 32; if (p >= t.size() || q >= t.size() || p >= q) return;
    std::string u = t;
    for (char a : cls) for (char b : cls) { u[p] = a; u[q] = b; decode(u); }
    u = t; u.erase(q, 1); u.erase(p, 1); decode(u);
    for (char a : cls) { u = t; u.erase(q, 1); u[p] = a; decode(u); u = t; u[q] = a; u.erase(p, 1); decode(u); u = t; u.insert(q, 1, a); u.insert(p, 1, a); decode(u); } },
    [](uint64_t k) { return "two changes of " + show(tmpl[k / 1024]) + " at " + std::to_string(k / 32 % 32) + " and " + std::to_string(k % 32); });
  // all ids
  d.add(256, [](uint64_t k) { for (int i = 0; i < 256; ++i) decode(":S" + hex(k * 256 + i, 4) + "N;"); for (int i = 0; i < 256; ++i) for (int j = 0; j < 4; ++j) { uint32_t v[] = {0, 0x89ABCDEF, 0xFFFFFFFF, 0x01234567}; int sh = 8 * j; decode(":X" + hex((v[i & 3] & ~(0xFFFFull << sh)) | (uint64_t)(k * 256 + i) << sh, 8) + "R0A;"); } }, [](uint64_t k) { return "ids with byte " + std::to_string(k); });
  // all short texts over a small alphabet
  static const char al[] = ":SXNR0F;a"; static const int depth = th ? 9 : 7;
  static uint64_t pw = 1; for (int i = 0; i < depth - 3; ++i) pw *= 9;
  d.add(9 * 9 * 9, [](uint64_t k) { for (uint64_t r = 0; r < pw; ++r) { std::string s; s += al[k % 9]; s += al[k / 9 % 9]; s += al[k / 81]; uint64_t x = r; for (int i = 3; i < depth; ++i) { s += al[x % 9]; x /= 9; } decode(s); decode(":S0020" + s); decode(":X00200001N" + s); } }, [](uint64_t k) { return "all short texts, group " + std::to_string(k); });
  sc.push_back(scen("decoding", 1, &d, 1, setup));
  const char *as[] = {"the text form of remote frames carries the data bytes, as the existing tests fix it (the format comment in GridConnect.cpp describes a length digit instead)", "identifier bits that the text form does not use are ignored, as the existing tests fix it"};
  return mc::run(argc, argv, "C16", sc.data(), sc.size(), "exhaustive enumeration of bounded spaces of frames and texts on the real functions against an independent encoder and parser (address-checked build)", as, 2);
}
