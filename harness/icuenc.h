// Encoding models taken from ICU's converters, one character at a time.
#pragma once
#include "common.h"
#include <lightgrep/encodings.h>
#include <unicode/ucnv.h>
#include <unicode/uset.h>
#include <array>

struct IcuEnc: Enc {
  // per code point, in pages of 256; round-tripping ones only. A code is at
  // most 8 bytes, packed big end first.
  std::vector<std::unique_ptr<std::array<uint64_t, 256>>> page;
  std::vector<std::pair<uint64_t, uint32_t>> byLen[9];   // per length, sorted by code
  CpSet round;                                   // code points that survive the round trip
  CpSet oneWay;                                  // encodable, but decoded as something else
  size_t maxLen = 0;
  bool plain = false;                            // stateless and prefix-free
  std::string icuName;

  static uint64_t pack(const unsigned char* p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
  const uint32_t* find(const unsigned char* p, size_t n) const {
    if (n > 8) return nullptr;
    const uint64_t v = pack(p, n);
    auto& l = byLen[n];
    auto i = std::lower_bound(l.begin(), l.end(), std::make_pair(v, 0u));
    return i != l.end() && i->first == v ? &i->second : nullptr;
  }
  Bytes encode(uint32_t cp) const override {
    if (cp > MAXCP || !page[cp >> 8]) return Bytes();
    uint64_t x = (*page[cp >> 8])[cp & 255];
    Bytes b;
    for (size_t n = lens[x >> 61]; n; --n) b += (char) (x >> 8 * (n - 1));
    return b;
  }
  size_t decode(const unsigned char* p, const unsigned char* e, uint32_t& cp) const override {
    for (size_t n = 1; n <= maxLen && p + n <= e; ++n) if (const uint32_t* c = find(p, n)) { cp = *c; return n; }
    return 0;
  }
  static constexpr size_t lens[8] = {0, 1, 2, 3, 4, 5, 6, 7};
  static Bytes conv(UConverter* c, const uint32_t* s, size_t n) {
    UChar u[8]; int k = 0;
    for (size_t i = 0; i < n; ++i) U16_APPEND_UNSAFE(u, k, s[i]);
    char out[64]; UErrorCode ec = U_ZERO_ERROR;
    ucnv_resetFromUnicode(c);
    int len = ucnv_fromUChars(c, out, sizeof out, u, k, &ec);
    return U_FAILURE(ec) ? Bytes() : Bytes(out, len);
  }
  explicit IcuEnc(const std::string& nm) {
    name = nm;
    UErrorCode ec = U_ZERO_ERROR;
    UConverter* c = ucnv_open(nm.c_str(), &ec);
    if (U_FAILURE(ec)) return;
    icuName = ucnv_getName(c, &ec);
    ucnv_setFromUCallBack(c, UCNV_FROM_U_CALLBACK_STOP, nullptr, nullptr, nullptr, &ec);
    ucnv_setToUCallBack(c, UCNV_TO_U_CALLBACK_STOP, nullptr, nullptr, nullptr, &ec);
    page.resize((MAXCP >> 8) + 1);
    // what might be encodable at all; the converter decides
    CpSet cand(0, MAXCP);
    USet* us = uset_openEmpty();
    UErrorCode e1 = U_ZERO_ERROR;
    ucnv_getUnicodeSet(c, us, UCNV_ROUNDTRIP_AND_FALLBACK_SET, &e1);
    if (U_SUCCESS(e1) && uset_size(us)) {
      cand = CpSet();
      for (int i = 0, n = uset_getItemCount(us); i < n; ++i) {
        UChar32 lo, hi; UErrorCode e3 = U_ZERO_ERROR;
        if (uset_getItem(us, i, &lo, &hi, nullptr, 0, &e3) == 0) cand.add((uint32_t) lo, (uint32_t) hi);
      }
    }
    uset_close(us);
    plain = true;
    for (auto& rg : cand.r) for (uint32_t cp = rg.first; cp <= rg.second; ++cp) {
      if (cp >= 0xD800 && cp < 0xE000) continue;
      Bytes b = conv(c, &cp, 1);
      if (b.empty()) continue;
      UChar u[16]; UErrorCode e2 = U_ZERO_ERROR;
      int n = ucnv_toUChars(c, u, 16, b.data(), (int) b.size(), &e2);
      UChar32 back = -1; int i = 0;
      if (U_SUCCESS(e2) && n) { U16_NEXT(u, i, n, back); if (i != n) back = -1; }
      if (back == (UChar32) cp) {
        round.r.empty() || round.r.back().second + 1 != cp ? round.r.push_back({cp, cp}) : void(round.r.back().second = cp);
        if (b.size() > 7) { plain = false; continue; }
        maxLen = std::max(maxLen, b.size());
        uint64_t v = pack((const unsigned char*) b.data(), b.size());
        byLen[b.size()].push_back({v, cp});
        auto& pg = page[cp >> 8];
        if (!pg) pg.reset(new std::array<uint64_t, 256>{});
        (*pg)[cp & 255] = v | (uint64_t) b.size() << 61;
      }
      else oneWay.add(cp);
    }
    for (auto& l : byLen) { std::sort(l.begin(), l.end()); l.shrink_to_fit(); }
    plain = plain && maxLen;
    for (size_t m = 2; plain && m <= maxLen; ++m) for (auto& kv : byLen[m]) for (size_t n = 1; plain && n < m; ++n) {
      unsigned char q[8]; for (size_t i = 0; i < m; ++i) q[i] = (unsigned char) (kv.first >> 8 * (m - 1 - i));
      if (find(q, n)) plain = false;
    }
    uint64_t x = 12345;
    for (int k = 0; plain && k < 400; ++k) {
      uint32_t s[2];
      for (auto& q : s) { x = mix64(x + k); q = round.nth(x % round.size()); if (x % 3 == 0 && round.has('a')) q = 'a'; }
      if (conv(c, s, 2) != encode(s[0]) + encode(s[1])) plain = false;
    }
    ucnv_close(c);
  }
};
inline const IcuEnc& icuEnc(const std::string& nm) {
  static std::map<std::string, std::unique_ptr<IcuEnc>> memo;
  auto& p = memo[nm];
  if (!p) p.reset(new IcuEnc(nm));
  return *p;
}
