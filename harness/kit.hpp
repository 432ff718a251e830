// helpers shared by the harnesses (include after the code under test)
#pragma once
#include "sx.hpp"
#include "types/tensor_impls/full_tensor.hpp"
using namespace happyml;
typedef std::shared_ptr<BaseTensor> T;
typedef std::vector<std::vector<std::vector<float>>> Cube; // channel, row, column
static inline uint32_t bitsOf(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static inline float floatOf(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static inline bool nanBits(uint32_t b) { return (b & 0x7fffffffu) > 0x7f800000u; }
static inline bool sameF(float a, float b) { return (bitsOf(a) == bitsOf(b)) | (nanBits(bitsOf(a)) & nanBits(bitsOf(b))); } // bit-identical, or both NaN
static inline float symf(const std::string &n) { return floatOf(sx_bits32(n.c_str())); }                         // any float at all
static inline float symi(const std::string &n, long lo, long hi) { return (float) sx_int(n.c_str(), lo, hi); }  // any integer valued float
static inline int pick(const std::string &n, long lo, long hi) { return (int) sx_fork(sx_int(n.c_str(), lo, hi)); } // one path per value
static inline bool within(float a, float b, float eps) { float d = a - b; return (d <= eps) & (d >= -eps); }
static inline bool relWithin(float a, float b, float rel, float abs) { float m = b < 0 ? -b : b; return within(a, b, m * rel + abs); }
static inline std::string symStr(const std::string &n, size_t minLen, size_t maxLen, int lo = -128, int hi = 127) { size_t l = sx_fork(sx_int((n + ".len").c_str(), minLen, maxLen)); std::string s(l, 0); for (size_t i = 0; i < l; i++) s[i] = (char) sx_int((n + "." + std::to_string(i)).c_str(), lo, hi); return s; }
static inline bool sameStr(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &e) { return true; } return false; }
static inline T full(const Cube &c) { return std::make_shared<FullTensor>(c); }
static inline T tens(const Cube &c) { return std::make_shared<FullTensor>(c); } // full, where the enum LayerType::full is in scope
static inline T mat(const std::vector<std::vector<float>> &m) { return std::make_shared<FullTensor>(Cube{m}); }
static inline T rowv(const std::vector<float> &v) { return mat({v}); }
static inline Cube cubeOf(size_t c, size_t r, size_t k, float fill = 0) { return Cube(c, std::vector<std::vector<float>>(r, std::vector<float>(k, fill))); }
static inline Cube cubeBits(size_t c, size_t r, size_t k, const std::string &n) { Cube v = cubeOf(c, r, k); for (size_t a = 0; a < c; a++) for (size_t b = 0; b < r; b++) for (size_t d = 0; d < k; d++) v[a][b][d] = symf(n + std::to_string(a) + "_" + std::to_string(b) + "_" + std::to_string(d)); return v; }
static inline Cube cubeInts(size_t c, size_t r, size_t k, const std::string &n, long lo, long hi) { Cube v = cubeOf(c, r, k); for (size_t a = 0; a < c; a++) for (size_t b = 0; b < r; b++) for (size_t d = 0; d < k; d++) v[a][b][d] = symi(n + std::to_string(a) + "_" + std::to_string(b) + "_" + std::to_string(d), lo, hi); return v; }
static inline Cube read(const T &t) { Cube v = cubeOf(t->channelCount(), t->rowCount(), t->columnCount()); for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < t->rowCount(); b++) for (size_t d = 0; d < t->columnCount(); d++) v[a][b][d] = t->getValue(b, d, a); return v; }
// shapes beyond the small ones, and whole values to fill them with
static inline Cube pattern(size_t c, size_t r, size_t k, int seed = 0) { Cube v = cubeOf(c, r, k); int n = seed; for (auto &x: v) for (auto &y: x) for (float &z: y) z = (float) ((n++ * 7) % 11) - 5; return v; }
static inline Cube large(int which, int seed = 0) { return which == 0 ? pattern(5, 3, 35, seed) : which == 1 ? pattern(1, 34, 2, seed) : which == 2 ? pattern(18, 1, 3, seed) : pattern(1, 1, 133, seed); }
static inline float &nth(Cube &v, int where) { size_t n = v.size() * v[0].size() * v[0][0].size(), i = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? n - 1 : n * 3 / 4; size_t per = v[0].size() * v[0][0].size(); return v[i / per][i % per / v[0][0].size()][i % v[0][0].size()]; }
static inline bool shapeIs(const T &t, size_t c, size_t r, size_t k) { return t->channelCount() == c && t->rowCount() == r && t->columnCount() == k; }
// 1 iff every element of t is bit-identical to c (no path forking on the values)
static inline int sameCube(const T &t, const Cube &c) { if (!shapeIs(t, c.size(), c[0].size(), c[0][0].size())) return 0; int ok = 1; for (size_t a = 0; a < c.size(); a++) for (size_t b = 0; b < c[0].size(); b++) for (size_t d = 0; d < c[0][0].size(); d++) ok &= sameF(t->getValue(b, d, a), c[a][b][d]); return ok; }
static inline int nearCube(const T &t, const Cube &c, float eps) { if (!shapeIs(t, c.size(), c[0].size(), c[0][0].size())) return 0; int ok = 1; for (size_t a = 0; a < c.size(); a++) for (size_t b = 0; b < c[0].size(); b++) for (size_t d = 0; d < c[0][0].size(); d++) ok &= within(t->getValue(b, d, a), c[a][b][d], eps); return ok; }
static inline std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static inline void spew(const std::string &p, const std::string &t) { std::ofstream f(p, std::ios::binary); f.write(t.data(), t.size()); }
static inline std::string sub(const std::string &p) { return std::string(sx_scratch()) + "/" + p; }
