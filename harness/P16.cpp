// P16: the least-recently-inserted cache that finds duplicate records
#include <string>
#include "util/lru_cache.h"
#include "kit.hpp"
static void run(size_t cap, int n, int keys, bool asks) { LruCache<size_t, bool> c(cap); std::vector<size_t> order; // newest first
    for (int i = 0; i < n; i++) { size_t k = pick("key" + std::to_string(i), 0, keys - 1); if ((!asks || pick("insert" + std::to_string(i), 0, 1))) { c.insert(k, true); for (size_t j = 0; j < order.size(); j++) if (order[j] == k) { order.erase(order.begin() + j); break; } order.insert(order.begin(), k); if (order.size() > cap) order.pop_back(); } for (size_t q = 0; q < (size_t) keys; q++) { bool in = false; for (size_t o: order) in |= o == q; sx_check(c.contains(q) == in, "holds the newest keys and no others"); } } }
SX_HARNESS(small) { run(pick("capacity", 0, 3), 3 + sx_tier(), 3, true); }
SX_HARNESS(longer) { run(pick("capacity", 1, 3), 5 + sx_tier(), 4, false); }
SX_HARNESS(any_keys) { // keys of any hash bucket
    LruCache<size_t, bool> c(2); size_t k[3]; for (int i = 0; i < 3; i++) k[i] = (size_t) sx_int(("k" + std::to_string(i)).c_str(), 0, 60); for (int i = 0; i < 3; i++) c.insert(k[i], true); size_t q = (size_t) sx_int("q", 0, 60); bool two = k[2] == k[1]; bool in = (q == k[2]) | (q == k[1]) | (two & (q == k[0])) | ((k[0] == k[2]) & (q == k[1])); sx_check(c.contains(q) == in, "holds the newest keys and no others"); }
SX_HARNESS(strings) { LruCache<std::string, int> c(2); static const char *w[] = {"", "a", "b"}; std::vector<std::string> o; for (int i = 0; i < 4; i++) { std::string k = w[pick("k" + std::to_string(i), 0, 2)]; c.insert(k, i); for (size_t j = 0; j < o.size(); j++) if (o[j] == k) { o.erase(o.begin() + j); break; } o.insert(o.begin(), k); if (o.size() > 2) o.pop_back(); for (auto q: w) { bool in = false; for (auto &x: o) in |= x == q; sx_check(c.contains(q) == in, "holds the newest keys and no others"); } } }
SX_HARNESS(larger) { // roomier caches, asked after many insertions; the last keys are any
    static const size_t CAP[] = {4, 7, 16, 100}; size_t cap = CAP[pick("capacity", 0, 3)], stride = pick("order", 1, 3), n = cap * (1 + pick("rounds", 0, 2)) + pick("more", 0, 1); LruCache<size_t, size_t> c(cap); std::vector<size_t> order; auto put = [&](size_t k) { c.insert(k, k * 3); for (size_t j = 0; j < order.size(); j++) if (order[j] == k) { order.erase(order.begin() + j); break; } order.insert(order.begin(), k); if (order.size() > cap) order.pop_back(); }; for (size_t i = 0; i < n; i++) put(stride == 1 ? i : stride == 2 ? i * 7 % (cap + 3) : i / 2 * 13); if (cap < 16) { size_t last = (size_t) pick("again", 0, 3); put(last == 3 ? 1000000007 : order[last * (order.size() - 1) / 2]); } int ok = 1; for (size_t q: order) ok &= c.contains(q); sx_check(ok, "holds the newest keys"); size_t extra = 0; for (size_t q = 0; q < cap * 42; q++) if (std::find(order.begin(), order.end(), q) == order.end()) extra += c.contains(q); sx_check(extra == 0, "and no others"); }
