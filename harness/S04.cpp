// S04: hash() is the SHA-1 of the argument list: a pure function of types, values and order, whose
// result matches an independent SHA-1 and differs between different argument lists.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
using namespace vif;
using vp::Tape; using Str = std::string;
static Str sha1(const Str& m) { // straight from FIPS 180-4
    uint32_t h[5] = {0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u}; Str s = m; s += char(0x80); while (s.size() % 64 != 56) s += '\0'; uint64_t L = uint64_t(m.size())*8; for (int i = 7; i >= 0; --i) s += char((L >> (8*i)) & 255);
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (size_t o = 0; o < s.size(); o += 64) { uint32_t w[80]; for (int i = 0; i < 16; ++i) w[i] = uint32_t(uint8_t(s[o+4*i])) << 24 | uint32_t(uint8_t(s[o+4*i+1])) << 16 | uint32_t(uint8_t(s[o+4*i+2])) << 8 | uint8_t(s[o+4*i+3]); for (int i = 16; i < 80; ++i) w[i] = rol(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1); uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; ++i) { uint32_t f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; } uint32_t tt = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = tt; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    char o[41]; for (int i = 0; i < 5; ++i) std::snprintf(o + 8*i, 9, "%08x", h[i]); return o;
}
static bool hex40(const Str& s) { if (s.size() != 40) return false; for (char c : s) if (!std::isxdigit((unsigned char)c) || std::isupper((unsigned char)c)) return false; return true; }
static Str bytes(Tape& t, size_t n) { Str s(n, 0); for (auto& c : s) c = char(t.draw(256)); return s; }
SUB("sha1", 4) { // the digest function itself, at every length around the block boundaries
    size_t n = t.pick({size_t(t.draw(10)), size_t(50 + t.draw(20)), size_t(110 + t.draw(24)), size_t(t.draw(400))}); Str s = bytes(t, n); t.note("length ", n); Str o; impl::sha1::calc(reinterpret_cast<const unsigned char*>(s.data()), int(s.size()), o); CHECK(o == sha1(s), "digest of ", n, " bytes is ", o, " expected ", sha1(s)); if (n >= 55) t.nontrivial();
}
SUB("arguments", 4) {
    Str a = vp::gen_str(t, "abc", 0, 70), b = vp::gen_str(t, "abc", 0, 5); int i = int(t.range(-1000, 1000)), j = int(t.range(-1000, 1000)); t.note(vp::quote(a), " ", vp::quote(b), " ", i, " ", j); Str h = hash(a, i); CHECK(hex40(h), "not 40 lower case hexadecimal digits: ", h); { Str a2 = a; int i2 = i; CHECK(hash(a2, i2) == h, "hash is not a function of the values"); }
    if (a != b) { CHECK(hash(a) != hash(b), "different strings"); CHECK(hash(a, b) != hash(b, a), "argument order ignored"); } if (i != j) { CHECK(hash(i) != hash(j)); CHECK(hash(a, i) != hash(a, j), "last argument ignored"); CHECK(hash(i, j) != hash(j, i)); CHECK(hash(i, a) != hash(j, a), "first argument ignored"); } Str ab = a + b; CHECK(hash(a, b) != hash(ab), "argument boundary ignored"); double di = i; CHECK(hash(i) != hash(di), "type ignored"); CHECK(hash(a, i) != hash(a));
    if (a.size()) { Str c = a; size_t k = t.draw(c.size()); c[k] = c[k] == 'a' ? 'b' : 'a'; CHECK(hash(c) != hash(a), "character ", k, " ignored"); }
    if (a.size() > 2) t.nontrivial();
}
SUB("vectors", 3) {
    std::vector<int> x = vp::ints<int>(t, t.size(1, 40), -99, 99); auto v = vp::mk<int>(x); vec1i lv; for (int q : x) lv.push_back(q); auto w = v; size_t k = t.draw(x.size()); w.data[k] += 1; t.note(vp::show(x), " change ", k); { auto v2 = vp::mk<int>(x); CHECK(hash(v) == hash(v2), "not a function of the values"); } CHECK(hash(v) != hash(w), "element ", k, " ignored"); CHECK(hash(v, 1) != hash(v, 2)); auto u = v; u.push_back(3); CHECK(hash(u) != hash(v)); vec1s s = to_string_vector(v); CHECK(hash(s) != hash(v)); double d = x[0]/8.0; double dp = d + 0.125; CHECK(hash(d) != hash(dp)); { double d2 = d; CHECK(hash(d) == hash(d2)); } if (x.size() > 1) t.nontrivial();
}
KNOWN("K1", "hash(x) depends on whether x is const or a temporary, not only on its type and value") { int x = 5; const int y = 5; return hash(x) == hash(y) && hash(x) == hash(5); }
KNOWN("K2", "hash(1.00000001) == hash(1.00000002): floating point values are hashed with 6 significant digits") { double a = 1.00000001, b = 1.00000002; return hash(a) != hash(b); }
