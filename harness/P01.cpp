// P01: 8-bit and 16-bit floats
#include "types/quarter_float.hpp"
#include "types/half_float.hpp"
#include "types/tensor_impls/full_tensor.hpp"
#include "types/tensor_impls/half_tensor.hpp"
#include "types/tensor_impls/quarter_tensor.hpp"
#include "util/tensor_utils.hpp"
#include "sx.hpp"
using namespace happyml;
static uint32_t bitsOf(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static float floatOf(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static bool nanBits(uint32_t b) { return (b & 0x7fffffffu) > 0x7f800000u; }
// total order of the finite floats and infinities on the bits, with -0 == +0
static int64_t ordinal(uint32_t b) { int64_t m = (int64_t) (b & 0x7fffffffu); return sx_ite(b >> 31, -m, m); }
static int64_t mag(uint32_t b) { return (int64_t) (b & 0x7fffffffu); }

SX_HARNESS(quarter_special) {
    int bias = (int) sx_fork(sx_int("bias", 0, 15));
    uint32_t b = sx_bits32("f");
    quarter q = floatToQuarter(floatOf(b), bias);
    uint32_t d = bitsOf(quarterToFloat(q, bias));
    sx_obs_i("q", q); sx_obs_i("d", d);
    sx_check(!nanBits(b) | nanBits(d), "NaN stays NaN");
    sx_check(nanBits(b) | !nanBits(d), "a number never becomes NaN");
    sx_check((b != 0x7f800000u) | (d == 0x7f800000u), "+inf stays +inf");
    sx_check((b != 0xff800000u) | (d == 0xff800000u), "-inf stays -inf");
    bool finite = mag(b) < 0x7f800000;
    sx_check(!finite | (mag(d) < 0x7f800000), "a finite value stays finite");
    sx_check(!finite | (mag(d) == 0) | ((b >> 31) == (d >> 31)), "sign is kept");
    sx_check((mag(b) != 0) | (mag(d) == 0), "zero stays zero");
    uint32_t mx = bitsOf(quarterToFloat(QUARTER_MAX, bias));
    sx_check(!finite | (mag(d) <= (int64_t) mx), "never above the largest value");
    sx_check(!finite | (mag(b) < (int64_t) mx) | (mag(d) == (int64_t) mx), "saturates at the largest value");
}
SX_HARNESS(quarter_error) {
    int bias = (int) sx_fork(sx_int("bias", 0, 15));
    uint32_t b = sx_bits32("f");
    int e = bias == 0 ? 1 : bias;
    // exponents that the 8-bit format has in full: 2^(1-bias) .. max
    int64_t lo = (int64_t) (127 - e + 1) << 23, hi = (int64_t) (127 - e + 15) << 23;
    sx_assume((mag(b) >= lo) & (mag(b) < hi));
    uint32_t d = bitsOf(quarterToFloat(floatToQuarter(floatOf(b), bias), bias));
    sx_obs_i("d", d);
    int64_t diff = mag(b) - mag(d); diff = sx_ite(diff < 0, -diff, diff);
    sx_check(diff < (1 << 20), "within one step of the 3-bit mantissa");
    sx_check((diff <= (1 << 19)) | ((b & 0x00700000u) == 0x00700000u), "rounds to the nearest step");
    sx_check((b & 0xfffffu) != 0 || d == b, "representable values are exact");
    // around the smallest exponent the error is bounded by the smallest representable magnitude
}
SX_HARNESS(quarter_small) {
    int bias = (int) sx_fork(sx_int("bias", 0, 15));
    uint32_t b = sx_bits32("f"); int e = bias == 0 ? 1 : bias;
    int64_t lo = (int64_t) (127 - e + 1) << 23;
    sx_assume(mag(b) < lo);
    uint32_t d = bitsOf(quarterToFloat(floatToQuarter(floatOf(b), bias), bias));
    sx_obs_i("d", d);
    sx_check(mag(d) <= lo, "small values stay small");
}
SX_HARNESS(quarter_order) {
    int bias = (int) sx_fork(sx_int("bias", 0, 15));
    uint32_t a = sx_bits32("a"), b = sx_bits32("b");
    sx_assume((mag(a) <= 0x7f800000) & (mag(b) <= 0x7f800000) & (ordinal(a) <= ordinal(b)));
    uint32_t x = bitsOf(quarterToFloat(floatToQuarter(floatOf(a), bias), bias)), y = bitsOf(quarterToFloat(floatToQuarter(floatOf(b), bias), bias));
    sx_obs_i("x", x); sx_obs_i("y", y);
    sx_check(ordinal(x) <= ordinal(y), "conversion keeps the order of values");
}
SX_HARNESS(quarter_roundtrip) {
    int bias = (int) sx_fork(sx_int("bias", 0, 15));
    quarter q = (quarter) sx_int("q", 0, 255);
    if (bias > 11) sx_assume(q != 0x80);
    uint32_t d = bitsOf(quarterToFloat(q, bias));
    quarter r = floatToQuarter(floatOf(d), bias);
    uint32_t d2 = bitsOf(quarterToFloat(r, bias));
    sx_obs_i("d", d); sx_obs_i("r", r);
    // exponent 15 with a mantissa is reserved (NaN and the infinities); 0x80 stands for the tiny value
    sx_assume((q & 0x78) != 0x78 || q == QUARTER_NAN || q == QUARTER_POS_INFINITY || q == QUARTER_NEG_INFINITY);
    sx_check((d2 == d) | (nanBits(d) & nanBits(d2)), "a decoded value encodes to itself");
    sx_check((r == q), "same 8-bit code");
}
SX_HARNESS(quarter_ops) {
    static const int bs[][3] = {{4, 4, 4}, {8, 4, 1}, {1, 8, 14}, {14, 1, 8}};
    auto &z = bs[sx_fork(sx_int("biases", 0, 3))]; int op = (int) sx_fork(sx_int("op", 0, 3));
    quarter a = (quarter) sx_int("a", 0, 255), b = (quarter) sx_int("b", 0, 255);
    float x = quarterToFloat(a, z[0]), y = quarterToFloat(b, z[1]);
    if (op == 0) sx_check(quarterAdd(a, z[0], b, z[1], z[2]) == floatToQuarter(x + y, z[2]), "8-bit add");
    if (op == 1) sx_check(quarterSubtract(a, z[0], b, z[1], z[2]) == floatToQuarter(x - y, z[2]), "8-bit subtract");
    if (op == 2) sx_check(quarterMultiply(a, z[0], b, z[1], z[2]) == floatToQuarter(x * y, z[2]), "8-bit multiply");
    if (op == 3) sx_check(quarterDivide(a, z[0], b, z[1], z[2]) == floatToQuarter(x / y, z[2]), "8-bit divide");
}
SX_HARNESS(half_all) {
    uint32_t b = sx_bits32("f");
    half h = floatToHalf(floatOf(b)); uint32_t d = bitsOf(halfToFloat(h));
    sx_obs_i("h", h); sx_obs_i("d", d);
    sx_check(nanBits(b) == nanBits(d), "NaN exactly when the original is NaN");
    sx_check((mag(b) != 0x7f800000) | (d == b), "infinities are kept");
    sx_check((mag(b) >= 0x7f800000) | (mag(d) < 0x7f800000), "a finite value stays finite");
    sx_check(nanBits(b) | ((b >> 31) == (d >> 31)), "sign is kept");
    int64_t diff = mag(b) - mag(d); diff = sx_ite(diff < 0, -diff, diff);
    sx_check(nanBits(b) | (diff < (1 << 16)), "within one step of the 7-bit mantissa");
    sx_check(nanBits(b) | ((b & 0xffffu) != 0) | (d == b), "representable values are exact");
    half h2 = floatToHalf(halfToFloat(h));
    sx_check(nanBits(b) | (h2 == h), "a decoded value encodes to itself");
}
SX_HARNESS(half_order) {
    uint32_t a = sx_bits32("a"), b = sx_bits32("b");
    sx_assume((mag(a) <= 0x7f800000) & (mag(b) <= 0x7f800000) & (ordinal(a) <= ordinal(b)));
    uint32_t x = bitsOf(halfToFloat(floatToHalf(floatOf(a)))), y = bitsOf(halfToFloat(floatToHalf(floatOf(b))));
    sx_check(ordinal(x) <= ordinal(y), "conversion keeps the order of values");
}
SX_HARNESS(half_codes) {
    half h = (half) sx_int("h", 0, 65535); uint32_t d = bitsOf(halfToFloat(h));
    sx_assume(!nanBits(d));
    sx_check(floatToHalf(floatOf(d)) == h, "every 16-bit value round trips");
    sx_check(d == ((uint32_t) h << 16), "16-bit value is the top half of the 32-bit value");
}
// tensors that store reduced precision behave like element-wise conversion, at every position
SX_HARNESS(tensor_storage) {
    size_t rows = 2, cols = 3, chans = 2; int bias = (int) sx_fork(sx_int("bias", 4, 8)); long pos = sx_fork(sx_int("pos", 0, 11));
    std::vector<std::vector<std::vector<float>>> v(chans, std::vector<std::vector<float>>(rows, std::vector<float>(cols)));
    for (size_t c = 0; c < chans; c++) for (size_t r = 0; r < rows; r++) for (size_t k = 0; k < cols; k++) v[c][r][k] = 0.25f * (float) (c * 6 + r * 3 + k + 1);
    uint32_t xb = sx_bits32("x"); float x = floatOf(xb); v[pos / 6][pos / 3 % 2][pos % 3] = x;
    auto full = std::make_shared<FullTensor>(v);
    HalfTensor half(full); QuarterTensor quart(full, bias);
    sx_check(half.rowCount() == rows && half.columnCount() == cols && half.channelCount() == chans, "half shape");
    sx_check(quart.rowCount() == rows && quart.columnCount() == cols && quart.channelCount() == chans, "quarter shape");
    for (size_t c = 0; c < chans; c++) for (size_t r = 0; r < rows; r++) for (size_t k = 0; k < cols; k++) {
        uint32_t o = bitsOf(v[c][r][k]); bool nan = nanBits(o);
        sx_check(nan | (bitsOf(half.getValue(r, k, c)) == bitsOf(halfToFloat(floatToHalf(v[c][r][k])))), "16-bit tensor element");
        sx_check(nan | (bitsOf(quart.getValue(r, k, c)) == bitsOf(quarterToFloat(floatToQuarter(v[c][r][k], bias), bias))), "8-bit tensor element");
        sx_check(bitsOf(full->getValue(r, k, c)) == o, "32-bit tensor element");
    }
}
// choosing the 8-bit layout for a tensor: the tensor's range fits, so nothing is clipped
SX_HARNESS(materialize_8bit) { // opts: w=5 jobs=5
    long e = sx_fork(sx_int("scale", 0, 7)); static const float sc[] = {1.f / 1048576, 1.f / 16384, 1.f / 1024, 1.f / 64, 1.f / 8, 1.f, 2.f, 3.f};
    long a = sx_int("a", -300, 300), b = sx_fork(sx_int("b", 0, 2)) * 125;
    std::vector<std::vector<std::vector<float>>> v{{{(float) a * sc[e], (float) b * sc[e]}}};
    std::shared_ptr<BaseTensor> full = std::make_shared<FullTensor>(v);
    auto m = materializeTensor(full, 8);
    for (int k = 0; k < 2; k++) {
        float x = v[0][0][k], y = m->getValue(0, k, 0);
        sx_obs_f("y", y);
        sx_check((bitsOf(x) == 0) | (y == 0) | ((bitsOf(x) >> 31) == (bitsOf(y) >> 31)), "sign is kept");
        int64_t mx = mag(bitsOf(x)), my = mag(bitsOf(y)), d = mx - my, lo = (int64_t) 114 << 23; d = sx_ite(d < 0, -d, d);
        sx_check((mx < lo) | (d < (1 << 20)), "not clipped: within one step");
        sx_check((mx >= lo) | (my <= lo), "small values stay small");
    }
    sx_check(materializeTensor(full, 32) == full, "32-bit keeps the tensor");
    auto h = materializeTensor(full, 16);
    for (int k = 0; k < 2; k++) sx_check(bitsOf(h->getValue(0, k, 0)) == bitsOf(halfToFloat(floatToHalf(v[0][0][k]))), "16-bit materialised");
}
SX_HARNESS(constructed) { // from rows of values as from tensors
    size_t rows = sx_fork(sx_int("rows", 1, 3)), cols = sx_fork(sx_int("cols", 1, 3)), flat = rows == 1 ? sx_fork(sx_int("flat", 0, 1)) : 0; int bias = (int) sx_fork(sx_int("bias", 4, 8)); long pos = sx_fork(sx_int("pos", 0, 1)); std::vector<std::vector<float>> v(rows, std::vector<float>(cols)); for (size_t r = 0; r < rows; r++) for (size_t k = 0; k < cols; k++) v[r][k] = 0.25f * (float) (r * 3 + k + 1); (pos ? v[rows - 1][cols - 1] : v[0][0]) = floatOf(sx_bits32("x")); auto f = std::make_shared<FullTensor>(std::vector<std::vector<std::vector<float>>>{v}); HalfTensor h0(f); QuarterTensor q0(f, bias); auto h = flat ? std::make_shared<HalfTensor>(v[0]) : std::make_shared<HalfTensor>(v); auto q = flat ? std::make_shared<QuarterTensor>(v[0], bias) : std::make_shared<QuarterTensor>(v, bias);
    sx_check(h->rowCount() == rows && h->columnCount() == cols && h->channelCount() == 1 && q->rowCount() == rows && q->columnCount() == cols && q->channelCount() == 1, "shape"); int ok = 1; for (size_t r = 0; r < rows; r++) for (size_t k = 0; k < cols; k++) ok &= nanBits(bitsOf(v[r][k])) | ((bitsOf(h->getValue(r, k, 0)) == bitsOf(h0.getValue(r, k, 0))) & (bitsOf(q->getValue(r, k, 0)) == bitsOf(q0.getValue(r, k, 0)))); sx_check(ok, "the same values"); }
