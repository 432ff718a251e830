// Definitions of the libstdc++ functions that live in the shared library and not in headers,
// so that the whole program is available to the engine as bitcode.
#pragma once
#ifndef SX_CLK
#define SX_CLK
static long __sx_clk = 1700000000000000000l; // nanoseconds
#endif
extern "C" { int sx_issym(long v); double sx_strtod(const char *s, long *consumed); void sx_unsupported(const char *); }
extern "C" { int printf(const char *, ...) { return 0; } int puts(const char *) { return 0; } }
template class std::__cxx11::basic_string<char>;
namespace std {
    exception::~exception() noexcept {}
    const char *exception::what() const noexcept { return "std::exception"; }
    bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
    bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
    static char *__sx_dup(const char *s, size_t n) { char *p = new char[n + 1]; if (n) memcpy(p, s, n); p[n] = 0; return p; }
    __cow_string::__cow_string() : _M_p(__sx_dup("", 0)) {}
    __cow_string::__cow_string(const string &s) : _M_p(__sx_dup(s.data(), s.size())) {}
    __cow_string::__cow_string(const char *s, size_t n) : _M_p(__sx_dup(s, n)) {}
    __cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(__sx_dup(o._M_p, strlen(o._M_p))) {}
    __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { delete[] _M_p; _M_p = __sx_dup(o._M_p, strlen(o._M_p)); } return *this; }
    __cow_string::~__cow_string() { delete[] _M_p; }
    __cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(__sx_dup(o._M_p, strlen(o._M_p))) {}
    logic_error::logic_error(const string &s) : _M_msg(s) {} logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {} logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {} logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {} logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return _M_msg._M_p; }
    runtime_error::runtime_error(const string &s) : _M_msg(s) {} runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {} runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {} runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {} runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
    logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
    out_of_range::out_of_range(const string &s) : logic_error(s) {} out_of_range::out_of_range(const char *s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
    length_error::length_error(const string &s) : logic_error(s) {} length_error::length_error(const char *s) : logic_error(s) {} length_error::~length_error() noexcept {}
    invalid_argument::invalid_argument(const string &s) : logic_error(s) {} invalid_argument::invalid_argument(const char *s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
    domain_error::domain_error(const string &s) : logic_error(s) {} domain_error::domain_error(const char *s) : logic_error(s) {} domain_error::~domain_error() noexcept {}
    range_error::range_error(const string &s) : runtime_error(s) {} range_error::range_error(const char *s) : runtime_error(s) {} range_error::~range_error() noexcept {}
    overflow_error::overflow_error(const string &s) : runtime_error(s) {} overflow_error::overflow_error(const char *s) : runtime_error(s) {} overflow_error::~overflow_error() noexcept {}
    underflow_error::underflow_error(const string &s) : runtime_error(s) {} underflow_error::underflow_error(const char *s) : runtime_error(s) {} underflow_error::~underflow_error() noexcept {}
    system_error::~system_error() noexcept {}
    error_category::~error_category() {}
    void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); }
    void __throw_logic_error(const char *s) { throw logic_error(s); } void __throw_domain_error(const char *s) { throw domain_error(s); } void __throw_invalid_argument(const char *s) { throw invalid_argument(s); } void __throw_length_error(const char *s) { throw length_error(s); }
    void __throw_out_of_range(const char *s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char *s) { throw runtime_error(s); } void __throw_range_error(const char *s) { throw range_error(s); } void __throw_overflow_error(const char *s) { throw overflow_error(s); }
    void __throw_bad_function_call() { throw bad_function_call(); } void __throw_system_error(int) { throw runtime_error("system_error"); }
    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { auto *n = this->_M_next; auto *p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
        void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
        static const unsigned long __sx_primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733};
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
            static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
            if (n < sizeof(fast)) { if (n == 0) return 1; _M_next_resize = (size_t) __builtin_floor(fast[n] * (double) _M_max_load_factor); return fast[n]; }
            for (unsigned long p: __sx_primes) if (p >= n) { _M_next_resize = (size_t) __builtin_floor((double) p * (double) _M_max_load_factor); return p; }
            sx_unsupported("very large hash table"); return n;
        }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
            if (ne + ni > _M_next_resize) {
                double mb = (double) max<size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double) _M_max_load_factor;
                if (mb >= (double) nb) return {true, _M_next_bkt(max<size_t>((size_t) __builtin_floor(mb) + 1, nb * 2))};
                _M_next_resize = (size_t) __builtin_floor((double) nb * (double) _M_max_load_factor); return {false, 0};
            }
            return {false, 0};
        }
    }
    // plain (unbalanced) search trees: the same order of elements as the balanced ones
    static _Rb_tree_node_base *__sx_inc(_Rb_tree_node_base *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
    static _Rb_tree_node_base *__sx_dec(_Rb_tree_node_base *x) {
        if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
        if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
        auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
    }
    _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return __sx_inc(x); } const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return __sx_inc(const_cast<_Rb_tree_node_base *>(x)); }
    _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return __sx_dec(x); } const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return __sx_dec(const_cast<_Rb_tree_node_base *>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
        x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    }
    _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
        auto *&root = h._M_parent; auto *&lm = h._M_left; auto *&rm = h._M_right; auto *y = z; _Rb_tree_node_base *x = nullptr; 
        if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
        if (y != z) {
            z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
            if (y != z->_M_right) { auto *xp = y->_M_parent; if (x) x->_M_parent = xp; xp->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
            if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
            y->_M_parent = z->_M_parent; 
        } else {
            auto *xp = y->_M_parent; if (x) x->_M_parent = xp;
            if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
            if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto *q = x; while (q->_M_left) q = q->_M_left; lm = q; } }
            if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto *q = x; while (q->_M_right) q = q->_M_right; rm = q; } }
        }
        return z;
    }
    // every string of a given length hashes alike: the engine never has to invert a hash (unless the harness asks for
    // libstdc++'s own hash, because the code under test uses its value)
    int __sx_real_hash = 0;
    size_t _Hash_bytes(const void *p, size_t len, size_t seed) {
        if (!__sx_real_hash) return len * 0x9E3779B97F4A7C15ull >> 7;
        const size_t mul = (((size_t) 0xc6a4a793UL) << 32) + (size_t) 0x5bd1e995UL; const unsigned char *b = (const unsigned char *) p;
        auto mix = [](size_t v) { return v ^ (v >> 47); }; size_t h = seed ^ (len * mul), i = 0;
        for (; i + 8 <= len; i += 8) { size_t d = 0; for (int k = 7; k >= 0; k--) d = (d << 8) | b[i + k]; h ^= mix(d * mul) * mul; h *= mul; }
        if (i < len) { size_t d = 0; for (size_t k = len; k-- > i;) d = (d << 8) | b[k]; h ^= d; h *= mul; }
        return mix(mix(h) * mul);
    }
    size_t _Fnv_hash_bytes(const void *, size_t len, size_t) { return len * 0x9E3779B97F4A7C15ull >> 7; }
    void random_device::_M_init(const string &) {} void random_device::_M_init_pretr1(const string &) {} void random_device::_M_fini() {} double random_device::_M_getentropy() const noexcept { return 0; }
    static unsigned __sx_rd = 12345; unsigned random_device::_M_getval() { __sx_rd = __sx_rd * 1664525u + 1013904223u; return __sx_rd; }
    namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { __sx_clk += 1000; return time_point(duration(__sx_clk)); } steady_clock::time_point steady_clock::now() noexcept { __sx_clk += 1000; return time_point(duration(__sx_clk)); } } }
    int uncaught_exceptions() noexcept { return 0; } bool uncaught_exception() noexcept { return false; }
    struct __sx_cat : public _V2::error_category { const char *name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } };
    namespace _V2 {
        const error_category &generic_category() noexcept { static __sx_cat *c = new __sx_cat(); return *c; } const error_category &system_category() noexcept { return generic_category(); }
        error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); } bool error_category::equivalent(int, const error_condition &) const noexcept { return false; } bool error_category::equivalent(const error_code &, int) const noexcept { return false; }
        __cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
    }
    // decimal floating point: exact for short numbers, concrete otherwise
    static const char *__sx_decimal(const char *p, const char *end, bool allowSpace, bool allowPlus, double &out, bool &isf) {
        const char *s = p; if (allowSpace) while (s < end && ::isspace((unsigned char) *s)) s++;
        bool neg = false; if (s < end && (*s == '-' || (allowPlus && *s == '+'))) { neg = *s == '-'; s++; }
        unsigned long m = 0; int digits = 0, scale = 0; bool any = false, big = false; const char *q = s;
        while (q < end && (unsigned) (*q - '0') < 10u) { m = m * 10 + (unsigned long) (*q - '0'); digits++; any = true; q++; }
        if (q < end && *q == '.') { const char *d = q + 1; bool frac = false; while (d < end && (unsigned) (*d - '0') < 10u) { m = m * 10 + (unsigned long) (*d - '0'); digits++; scale++; frac = true; d++; } if (any || frac) { q = d; any = true; } }
        if (!any) {
            auto low = [](char c) { return c | 32; };
            if (end - q >= 3 && low(q[0]) == 'i' && low(q[1]) == 'n' && low(q[2]) == 'f') { out = neg ? -__builtin_inf() : __builtin_inf(); q += 3; if (end - q >= 5 && low(q[0]) == 'i' && low(q[1]) == 'n' && low(q[2]) == 'i' && low(q[3]) == 't' && low(q[4]) == 'y') q += 5; return q; }
            if (end - q >= 3 && low(q[0]) == 'n' && low(q[1]) == 'a' && low(q[2]) == 'n') { out = __builtin_nan(""); return q + 3; }
            return nullptr;
        }
        long ex = 0;
        if (q < end && (*q == 'e' || *q == 'E')) { const char *d = q + 1; bool en = false; if (d < end && (*d == '+' || *d == '-')) { en = *d == '-'; d++; } if (d < end && (unsigned) (*d - '0') < 10u) { while (d < end && (unsigned) (*d - '0') < 10u) { if (ex < 10000) ex = ex * 10 + (*d - '0'); d++; } if (en) ex = -ex; q = d; } }
        ex -= scale;
        if (digits > 15) big = true;
        if (!big && ex >= -10 && ex <= 10 && (!isf || digits <= 7)) {
            static const double p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000.0};
            if (isf) { float r = (float) (long) m; if (ex < 0) r = r / (float) p10[-ex]; else if (ex > 0) r = r * (float) p10[ex]; out = neg ? -r : r; }
            else { double r = (double) (long) m; if (ex < 0) r = r / p10[-ex]; else if (ex > 0) r = r * p10[ex]; out = neg ? -r : r; }
            return q;
        }
        string t(p, q); for (char c: t) if (sx_issym((long) c)) sx_unsupported("long symbolic decimal number");
        long used = 0; out = sx_strtod(t.c_str(), &used); return q;
    }
    from_chars_result from_chars(const char *b, const char *e, float &v, chars_format) noexcept { double d = 0; bool f = true; const char *r = __sx_decimal(b, e, false, false, d, f); if (!r) return {b, errc::invalid_argument}; if (d > 3.5e38 || d < -3.5e38) { if (d != __builtin_inf() && d != -__builtin_inf()) return {r, errc::result_out_of_range}; } v = (float) d; return {r, errc()}; }
    from_chars_result from_chars(const char *b, const char *e, double &v, chars_format) noexcept { double d = 0; bool f = false; const char *r = __sx_decimal(b, e, false, false, d, f); if (!r) return {b, errc::invalid_argument}; v = d; return {r, errc()}; }
}
extern "C" {
    void sx_throw_bad_alloc() { throw std::bad_alloc(); }
    static int __sx_errno; int *__errno_location() noexcept { return &__sx_errno; }
    float strtof(const char *s, char **e) noexcept { double d = 0; bool f = true; size_t n = strlen(s); const char *r = std::__sx_decimal(s, s + n, true, true, d, f); if (!r) { if (e) *e = (char *) s; return 0; } if (e) *e = (char *) r; if (d > 3.4028235677973366e38 || d < -3.4028235677973366e38) { if (d - d == 0) { __sx_errno = 34; return d > 0 ? __builtin_inff() : -__builtin_inff(); } } return (float) d; }
    double strtod(const char *s, char **e) noexcept { double d = 0; bool f = false; size_t n = strlen(s); const char *r = std::__sx_decimal(s, s + n, true, true, d, f); if (!r) { if (e) *e = (char *) s; return 0; } if (e) *e = (char *) r; return d; }
    static long __sx_strtol(const char *s, char **e, int base) { const char *p = s; while (::isspace((unsigned char) *p)) p++; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; } long v = 0; bool any = false; while ((unsigned) (*p - '0') < 10u) { if (v > (0x7fffffffffffffffl - 9) / 10) { __sx_errno = 34; v = 0x7fffffffffffffffl; any = true; p++; while ((unsigned) (*p - '0') < 10u) p++; break; } v = v * 10 + (*p - '0'); any = true; p++; } if (e) *e = (char *) (any ? p : s); return neg ? -v : v; }
    long strtol(const char *s, char **e, int b) noexcept { return __sx_strtol(s, e, b); } long long strtoll(const char *s, char **e, int b) noexcept { return __sx_strtol(s, e, b); } unsigned long strtoul(const char *s, char **e, int b) noexcept { return (unsigned long) __sx_strtol(s, e, b); } unsigned long long strtoull(const char *s, char **e, int b) noexcept { return (unsigned long long) __sx_strtol(s, e, b); }
    int pthread_mutex_lock(pthread_mutex_t *) noexcept { return 0; } int pthread_mutex_unlock(pthread_mutex_t *) noexcept { return 0; }
}
