// P02: tensor files
#include "types/quarter_float.hpp"
#include "types/half_float.hpp"
#include "types/tensor_impls/full_tensor.hpp"
#include "types/tensor_impls/half_tensor.hpp"
#include "types/tensor_impls/quarter_tensor.hpp"
#include "types/tensor_impls/pixel_tensor.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "util/tensor_utils.hpp"
#include "sx.hpp"
using namespace happyml;
static uint32_t bitsOf(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static float floatOf(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static bool nanBits(uint32_t b) { return (b & 0x7fffffffu) > 0x7f800000u; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static uint64_t be(const std::string &s, size_t at, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = (v << 8) | (unsigned char) s[at + i]; return v; }
typedef std::vector<std::vector<std::vector<float>>> Cube;
static Cube symCube(size_t c, size_t r, size_t k, const char *nm) {
    Cube v(c, std::vector<std::vector<float>>(r, std::vector<float>(k)));
    for (size_t a = 0; a < c; a++) for (size_t b = 0; b < r; b++) for (size_t d = 0; d < k; d++) { uint32_t x = sx_bits32((nm + std::to_string(a) + "_" + std::to_string(b) + "_" + std::to_string(d)).c_str()); v[a][b][d] = floatOf(x); }
    return v;
}
// distinct concrete values, with one arbitrary value at the first, the middle or the last position
static Cube oneSym(size_t c, size_t r, size_t k) {
    size_t n = c * r * k, pos = sx_fork(sx_int("pos", 0, n == 1 ? 0 : n == 2 ? 1 : 2)); pos = pos == 0 ? 0 : pos == 1 ? n / 2 : n - 1; size_t i = 0;
    Cube v(c, std::vector<std::vector<float>>(r, std::vector<float>(k)));
    for (auto &x: v) for (auto &y: x) for (float &z: y) { z = 0.375f * (float) (i + 1); if (i == pos) z = floatOf(sx_bits32("v")); i++; }
    return v;
}
static void dims(size_t &c, size_t &r, size_t &k) { c = sx_fork(sx_int("channels", 1, 2 + sx_tier())); r = sx_fork(sx_int("rows", 1, 3)); k = sx_fork(sx_int("cols", 1, 3 + sx_tier())); }

SX_HARNESS(bytes) {
    uint64_t v = sx_bits64("v"); uint64_t p = portableBytes(v); unsigned char m[8]; memcpy(m, &p, 8);
    for (int i = 0; i < 8; i++) sx_check(m[i] == (unsigned char) (v >> (56 - 8 * i)), "64-bit value is stored most significant byte first");
    sx_check(portableBytes(p) == v, "64-bit twice is the identity");
    uint32_t w = sx_bits32("w"); uint32_t q = portableBytes(w); memcpy(m, &q, 4);
    for (int i = 0; i < 4; i++) sx_check(m[i] == (unsigned char) (w >> (24 - 8 * i)), "32-bit value is stored most significant byte first");
    sx_check(portableBytes(q) == w, "32-bit twice is the identity");
    uint16_t h = (uint16_t) (w & 0xffff); uint16_t g = portableBytes(h); memcpy(m, &g, 2);
    sx_check(m[0] == (h >> 8) && m[1] == (h & 0xff), "16-bit value is stored most significant byte first");
    sx_check(portableBytes(g) == h, "16-bit twice is the identity");
    sx_check(bitsOf(portableFloat(q)) == w, "float from portable bytes");
}
SX_HARNESS(full_file) {
    size_t C, R, K; dims(C, R, K); Cube v = symCube(C, R, K, "v");
    auto t = std::make_shared<FullTensor>(v); std::string path = std::string(sx_scratch()) + "/full.tensor";
    sx_check(t->save(path), "saved");
    std::string f = slurp(path);
    sx_check(f.size() == 24 + 4 * C * R * K, "file size");
    sx_check(be(f, 0, 8) == C && be(f, 8, 8) == R && be(f, 16, 8) == K, "header: channels, rows, columns, big endian");
    size_t at = 24; FullTensor l(path);
    sx_check(l.channelCount() == C && l.rowCount() == R && l.columnCount() == K, "loaded shape");
    for (size_t a = 0; a < C; a++) for (size_t b = 0; b < R; b++) for (size_t d = 0; d < K; d++, at += 4) {
        sx_check((uint32_t) be(f, at, 4) == bitsOf(v[a][b][d]), "element bytes in file");
        sx_check(bitsOf(l.getValue(b, d, a)) == bitsOf(v[a][b][d]), "loaded element");
    }
    auto u = loadTensor(path, 32); sx_check(bitsOf(u->getValue(R - 1, K - 1, C - 1)) == bitsOf(v[C - 1][R - 1][K - 1]), "loadTensor 32");
}
SX_HARNESS(half_file) {
    size_t C, R, K; dims(C, R, K); Cube v = oneSym(C, R, K);
    for (auto &x: v) for (auto &y: x) for (float z: y) sx_assume(!nanBits(bitsOf(z)));
    auto t = std::make_shared<HalfTensor>(std::make_shared<FullTensor>(v)); std::string path = std::string(sx_scratch()) + "/half.tensor";
    sx_check(t->save(path), "saved"); HalfTensor l(path); auto u = loadTensor(path, 16);
    sx_check(l.channelCount() == C && l.rowCount() == R && l.columnCount() == K, "loaded shape");
    for (size_t a = 0; a < C; a++) for (size_t b = 0; b < R; b++) for (size_t d = 0; d < K; d++) {
        sx_check(bitsOf(l.getValue(b, d, a)) == bitsOf(t->getValue(b, d, a)), "loaded 16-bit element");
        sx_check(bitsOf(u->getValue(b, d, a)) == bitsOf(t->getValue(b, d, a)), "loadTensor 16");
    }
}
SX_HARNESS(quarter_file) {
    size_t C = sx_fork(sx_int("channels", 1, 2)), R = sx_fork(sx_int("rows", 1, 2)), K = sx_fork(sx_int("cols", 1, 2)); int bias = (int) sx_fork(sx_int("bias", 1, 11));
    Cube v = oneSym(C, R, K);
    auto t = std::make_shared<QuarterTensor>(std::make_shared<FullTensor>(v), bias); std::string path = std::string(sx_scratch()) + "/quarter.tensor";
    sx_check(t->save(path), "saved"); QuarterTensor l(path, bias);
    sx_check(l.channelCount() == C && l.rowCount() == R && l.columnCount() == K, "loaded shape");
    for (size_t a = 0; a < C; a++) for (size_t b = 0; b < R; b++) for (size_t d = 0; d < K; d++)
        sx_check((bitsOf(l.getValue(b, d, a)) == bitsOf(t->getValue(b, d, a))) | (nanBits(bitsOf(l.getValue(b, d, a))) & nanBits(bitsOf(t->getValue(b, d, a)))), "loaded 8-bit element");
}
SX_HARNESS(pixel_file) {
    size_t C = 2, R = sx_fork(sx_int("rows", 1, 2)), K = sx_fork(sx_int("cols", 1, 2)); size_t n = C * R * K, pos = sx_fork(sx_int("pos", 0, 1)) * (n - 1);
    long lv = sx_fork(sx_int("level", 0, 255));
    Cube v(C, std::vector<std::vector<float>>(R, std::vector<float>(K))); size_t i = 0;
    for (auto &x: v) for (auto &y: x) for (float &z: y) { z = i == pos ? (float) lv / 255.0f : (float) (i * 7 % 256) / 255.0f; i++; }
    auto t = std::make_shared<PixelTensor>(v); std::string path = std::string(sx_scratch()) + "/pixel.tensor";
    sx_check(t->save(path), "saved"); PixelTensor l(path);
    sx_check(l.channelCount() == C && l.rowCount() == R && l.columnCount() == K, "loaded shape");
    for (size_t a = 0; a < C; a++) for (size_t b = 0; b < R; b++) for (size_t d = 0; d < K; d++) {
        sx_check(bitsOf(t->getValue(b, d, a)) == bitsOf(v[a][b][d]), "a level of 1/255 is kept exactly");
        sx_check(bitsOf(l.getValue(b, d, a)) == bitsOf(v[a][b][d]), "loaded pixel");
    }
}
// several tensors, with and without header, in one stream: each load consumes exactly its own bytes
SX_HARNESS(stream_sequence) {
    size_t C, R, K; dims(C, R, K); Cube v = symCube(C, R, K, "v"), w = symCube(1, 2, 2, "w");
    auto t = std::make_shared<FullTensor>(v); auto u = std::make_shared<FullTensor>(w);
    std::string path = std::string(sx_scratch()) + "/seq.tensor";
    { std::ofstream o(path, std::ios::binary | std::ios::trunc); t->save(o, true); u->save(o, false); t->save(o, true); o.close(); }
    std::ifstream in(path, std::ios::binary); FullTensor a(in); FullTensor b(in, 2, 2, 1); FullTensor c(in);
    sx_check(a.rowCount() == R && a.columnCount() == K && a.channelCount() == C && c.rowCount() == R && c.columnCount() == K && c.channelCount() == C && b.rowCount() == 2 && b.columnCount() == 2 && b.channelCount() == 1, "shapes in a stream");
    for (size_t x = 0; x < C; x++) for (size_t y = 0; y < R; y++) for (size_t z = 0; z < K; z++) { sx_check(bitsOf(a.getValue(y, z, x)) == bitsOf(v[x][y][z]), "first tensor"); sx_check(bitsOf(c.getValue(y, z, x)) == bitsOf(v[x][y][z]), "third tensor"); }
    for (size_t y = 0; y < 2; y++) for (size_t z = 0; z < 2; z++) sx_check(bitsOf(b.getValue(y, z, 0)) == bitsOf(w[0][y][z]), "second tensor");
}
// a view is saved as the values it shows
SX_HARNESS(view_file) {
    size_t C, R, K; dims(C, R, K); Cube v = symCube(C, R, K, "v"); auto t = std::make_shared<TransposeTensorView>(std::make_shared<FullTensor>(v));
    std::string path = std::string(sx_scratch()) + "/view.tensor"; sx_check(t->save(path), "saved"); FullTensor l(path);
    sx_check(l.channelCount() == C && l.rowCount() == K && l.columnCount() == R, "loaded shape");
    for (size_t a = 0; a < C; a++) for (size_t b = 0; b < R; b++) for (size_t d = 0; d < K; d++) sx_check(bitsOf(l.getValue(d, b, a)) == bitsOf(v[a][b][d]), "loaded element");
    // saving over an existing file replaces it
    auto s = std::make_shared<FullTensor>(std::vector<float>{1.f}); sx_check(s->save(path), "saved again"); FullTensor l2(path);
    sx_check(l2.size() == 1 && l2.getValue(0, 0, 0) == 1.f && slurp(path).size() == 28, "overwritten file");
}
SX_HARNESS(larger) { // larger tensors of every kind, one value anywhere is any
    static const size_t D[5][3] = {{5, 3, 35}, {1, 34, 2}, {18, 1, 3}, {1, 1, 700}, {3, 20, 20}}; long which = sx_fork(sx_int("shape", 0, 4)), kind = sx_fork(sx_int("kind", 0, 3)), where = sx_fork(sx_int("where", 0, 3)); size_t C = D[which][0], R = D[which][1], K = D[which][2], n = C * R * K, pos = where == 0 ? 0 : where == 1 ? n / 3 : where == 2 ? n * 7 / 8 : n - 1, i = 0; Cube v(C, std::vector<std::vector<float>>(R, std::vector<float>(K)));
    for (auto &x: v) for (auto &y: x) for (float &z: y) { z = kind == 3 ? (float) (i * 7 % 256) / 255.f : (float) (i * 7 % 13) - 6; if (i == pos) z = kind == 3 ? (float) sx_fork(sx_int("pixel", 0, 2)) * 127 / 255.f : kind == 2 ? (float) sx_fork(sx_int("v", -2, 2)) : floatOf(sx_bits32("v")); i++; }
    auto t = std::make_shared<FullTensor>(v); std::string path = std::string(sx_scratch()) + "/t.tensor"; std::shared_ptr<BaseTensor> a, b; if (kind == 0) { sx_check(t->save(path), "saved"); a = t; b = std::make_shared<FullTensor>(path); } else if (kind == 1) { auto h = std::make_shared<HalfTensor>(t); sx_check(h->save(path), "saved"); a = h; b = std::make_shared<HalfTensor>(path); } else if (kind == 2) { auto q = std::make_shared<QuarterTensor>(t, 7); sx_check(q->save(path), "saved"); a = q; b = std::make_shared<QuarterTensor>(path, 7); } else { auto p = std::make_shared<PixelTensor>(t); sx_check(p->save(path), "saved"); a = p; b = std::make_shared<PixelTensor>(path); }
    sx_check(b->channelCount() == C && b->rowCount() == R && b->columnCount() == K, "loaded shape"); int ok = 1, near = 1; i = 0; for (size_t c = 0; c < C; c++) for (size_t r = 0; r < R; r++) for (size_t k = 0; k < K; k++) { float x = a->getValue(r, k, c), y = b->getValue(r, k, c), w = v[c][r][k]; ok &= (bitsOf(x) == bitsOf(y)) | nanBits(bitsOf(w)); if (i++ != pos) near &= (x - w < 0.3f) & (w - x < 0.3f); } sx_check(ok, "every value comes back"); sx_check(near, "where it was"); }
