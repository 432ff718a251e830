// P29: embedding text adds to each token where it stands
#include "ml/byte_pair_encoder.hpp"
#include "ml/rotary_positional_embedding.hpp"
#include "util/text_encoder_decoder.hpp"
#include "util/text_embedder.hpp"
#include "kit.hpp"
typedef std::vector<std::vector<float>> Rows;
SX_HARNESS(positions) { // any tokens
    size_t s = pick("longest", 1, 3), d = pick("width", 1, 4), n = pick("tokens", 0, 4); RotaryPositionalEmbedder e(s, d); auto enc = e.get_positional_encoding(); size_t even = d + d % 2; sx_check(e.getSequenceLength() == s && e.getDimensionality() == d && e.calculate_result_shape() == std::vector<size_t>{s, d} && enc.size() == s, "describes itself"); bool ok = true; for (size_t p = 0; p < s && p < enc.size(); p++) { ok &= enc[p].size() == even; for (size_t i = 0; i < enc[p].size(); i++) ok &= p == 0 ? enc[p][i] == (i % 2 ? 1.f : 0.f) : enc[p][i] >= -1 && enc[p][i] <= 1; } sx_check(ok, "sines and cosines, starting from none"); int steady = 1; for (size_t i = 0; s > 2 && i < even; i++) { double one = enc[1][i], two = i % 2 ? 2 * one * one - 1 : 2 * one * std::sqrt(1 - one * one); steady &= std::abs(enc[2][i] - two) < 1e-3 && (i % 2 ? one != 1 : one != 0); } sx_check(steady, "each turning at a steady pace"); for (size_t p = 1; p < s; p++) for (size_t q = 0; q < p; q++) sx_check(enc[p] != enc[q], "places differ"); Rows tokens; bool fits = true; for (size_t t = 0; t < n; t++) { size_t w = pick("size" + std::to_string(t), d - 1, d + 1); if (t < s) fits &= w <= d; std::vector<float> v; for (size_t i = 0; i < w; i++) v.push_back(symi("v" + std::to_string(t) + "." + std::to_string(i), -9, 9)); tokens.push_back(v); } Rows r; bool threw = throws([&] { r = e.embed_tokens(tokens); }); sx_check(threw == !fits, "tokens wider than the embedding are refused"); if (threw) return; sx_check(r.size() == std::min(n, s), "one row for each token, as many as there is room for"); int same = 1; for (size_t t = 0; t < r.size(); t++) { if (r[t].size() != d) { same = 0; continue; } for (size_t i = 0; i < d; i++) same &= r[t][i] == (i < tokens[t].size() ? tokens[t][i] + enc[t][i] : 0.f); } sx_check(same, "the token, moved by its place"); sx_check(throws([&] { e.embed_token({}, s); }) && e.get_padding_token_embedding() == std::vector<float>(d) && e.get_unknown_token_embedding() == std::vector<float>(d), "no place beyond the last"); } // opts: time=200
SX_HARNESS(long_texts) { // many places
    static const size_t S[] = {40, 300, 600, 1030}, D[] = {1, 2, 5, 16, 33}; size_t s = S[pick("longest", 0, 3)], d = D[pick("width", 0, 4)]; if (s * d > 10000 && !sx_tier()) return; RotaryPositionalEmbedder e(s, d); auto enc = e.get_positional_encoding(); sx_check(enc.size() == s, "every place has its encoding"); if (enc.size() != s) return; std::set<std::vector<float>> seen(enc.begin(), enc.end()); sx_check(seen.size() == s, "places differ"); bool ok = true; for (auto &v: enc) for (float f: v) ok &= f >= -1 && f <= 1; sx_check(ok, "sines and cosines"); auto same = RotaryPositionalEmbedder(s / 2, d).get_positional_encoding(); ok = true; for (size_t i = 0; i < same.size(); i++) ok &= same[i] == enc[i]; sx_check(ok, "the same place in every text"); size_t n = s + pick("more", 0, 1), at = pick("place", 0, 3) * (s - 1) / 3; Rows tokens(n, std::vector<float>(d, 1)); float v = symi("v", -9, 9); tokens[at][d - 1] = v; auto r = e.embed_tokens(tokens); sx_check(r.size() == s, "as many as there is room for"); int good = r.size() == s; for (size_t t = 0; good && t < s; t++) for (size_t i = 0; i < d; i++) good &= r[t][i] == tokens[t][i] + enc[t][i]; sx_check(good, "each token, moved by its place"); } // opts: time=200

SX_HARNESS(from_text) { // text is cut into tokens, each token into codes, and each code is embedded where it stands
    sx_real_hash(); BytePairEncoderModel m("m", false); static const std::vector<std::string> CORPUS[] = {{}, {"hello", "hell", "help"}, {"abab", "baba", " ab", "ab."}}; int known = pick("corpus", 0, 2); m.train(CORPUS[known], -1, 0.00001, 1); size_t room = pick("longest", 1, 2) * 3, wide = m.getLargestCode() + pick("width", -1, 1); static const char *F[] = {"", "hel", "abab ab.", "help hello, 12"}; static const char *H[] = {"", "h", " ", "7", "\xc3", "\n"}; int rest = pick("rest", 0, 3); std::string text = (rest || known != 1 || room > 3 ? std::string(H[pick("head", 0, 5)]) : symStr("head", 1, 1)) + F[rest]; auto e = std::make_shared<RotaryPositionalEmbedder>(room, wide); auto place = e->get_positional_encoding(); std::vector<unsigned> codes; for (auto &t: string_to_tokens(text)) for (char16_t c: m.encode(t)) codes.push_back(c); Rows r; auto m2 = std::shared_ptr<BytePairEncoderModel>(&m, [](BytePairEncoderModel *) {}); bool threw = throws([&] { r = text_to_tensor_bpe_rotary(text, m2, e); }); sx_check(threw == (wide < m.getLargestCode() && !codes.empty()), "an embedding too narrow for the codes is refused"); if (threw) return; sx_check(r.size() == std::min(codes.size(), room), "one row for each code, as many as there is room for"); int ok = 1, shape = 1; for (size_t i = 0; i < r.size(); i++) { if (r[i].size() != wide) { shape = 0; continue; } for (size_t k = 0; k < wide; k++) { float hot = sx_itef(codes[i] == k && k < m.getLargestCode(), 1.f, 0.f); ok &= r[i][k] == (k < m.getLargestCode() ? hot + place[i][k] : 0.f); } } sx_check(shape, "as wide as the embedding"); sx_check(ok, "the code, moved by its place"); } // opts: time=300
