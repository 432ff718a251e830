// In-memory stand-ins for the C++ stream, file-system, locale and async library, used only when a harness is
// compiled for the symbolic engine.  The code under test is compiled unchanged against them.
#pragma once
#include <iosfwd>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <stdexcept>
#include <system_error>
#include <type_traits>
#include <utility>
#include <cstring>
#include <cstdint>
#include <bits/localefwd.h>
#ifndef SX_CLK
#define SX_CLK
static long __sx_clk = 1700000000000000000l; // nanoseconds
#endif
extern "C" { int sx_issym(long v); long sx_fmt(char *buf, long cap, double v, const char *fmt); }
namespace std {
    inline int __sx_loose_text = 0;
    // ---- file system model
    struct __sx_node { bool dir = false; string data; };
    struct __sx_fs_t { map<string, shared_ptr<__sx_node>> nodes; };
    inline __sx_fs_t &__sx_fs() {
        static __sx_fs_t *f = nullptr;
        if (!f) { f = new __sx_fs_t(); for (const char *d: {"/", "/sx", "/tmp", "/repo"}) { auto n = make_shared<__sx_node>(); n->dir = true; f->nodes[d] = n; } }
        return *f;
    }
    inline string __sx_norm(const string &p) { // absolute, no ., .., duplicate or trailing slashes
        string s = !p.empty() && p[0] == '/' ? p : string("/sx/") + p;
        vector<string> parts; string cur;
        for (size_t i = 0; i <= s.size(); i++) {
            if (i == s.size() || s[i] == '/') { if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (!cur.empty() && cur != ".") parts.push_back(cur); cur.clear(); }
            else cur += s[i];
        }
        string r; for (auto &x: parts) r += "/" + x;
        return r.empty() ? string("/") : r;
    }
    inline string __sx_parent(const string &n) { size_t p = n.rfind('/'); return p == 0 || p == string::npos ? string("/") : n.substr(0, p); }
    inline shared_ptr<__sx_node> __sx_find(const string &p) { if (p.empty()) return nullptr; auto &m = __sx_fs().nodes; auto it = m.find(__sx_norm(p)); return it == m.end() ? nullptr : it->second; }

    class locale { public: locale() {} explicit locale(const char *) {} static const locale &classic() { static locale l; return l; } };
    inline bool __sx_in(int c, int a, int b) { return (c >= a) & (c <= b); }
    inline char tolower(char c, const locale &) { return (char) ::tolower((unsigned char) c); }
    inline char toupper(char c, const locale &) { return (char) ::toupper((unsigned char) c); }
    inline bool isspace(char c, const locale &) { return ::isspace((unsigned char) c) != 0; }
    inline bool isalpha(char c, const locale &) { return ::isalpha((unsigned char) c) != 0; }
    inline bool isdigit(char c, const locale &) { return ::isdigit((unsigned char) c) != 0; }
    inline bool isalnum(char c, const locale &) { return ::isalnum((unsigned char) c) != 0; }

    class ios_base {
    public:
        typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef int seekdir;
        static constexpr fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, fixed = 8, scientific = 16, floatfield = 24, left = 32, right = 64, internal = 128, adjustfield = 224, boolalpha = 256, showpoint = 512, showpos = 1024, skipws = 2048, uppercase = 4096, showbase = 8192, unitbuf = 16384;
        static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
        static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
        static constexpr seekdir beg = 0, cur = 1, end = 2;
        class failure : public runtime_error { public: explicit failure(const char *m) : runtime_error(m) {} explicit failure(const std::string &m) : runtime_error(m) {} };
        fmtflags flags() const { return f_; } fmtflags flags(fmtflags f) { auto o = f_; f_ = f; return o; }
        fmtflags setf(fmtflags f) { auto o = f_; f_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = f_; f_ = (f_ & ~m) | (f & m); return o; } void unsetf(fmtflags m) { f_ &= ~m; }
        streamsize precision() const { return p_; } streamsize precision(streamsize p) { auto o = p_; p_ = p; return o; }
        streamsize width() const { return w_; } streamsize width(streamsize w) { auto o = w_; w_ = w; return o; }
        static bool sync_with_stdio(bool = true) { return true; }
        virtual ~ios_base() {}
    protected:
        fmtflags f_ = dec | skipws; streamsize p_ = 6, w_ = 0;
    };
    struct __sx_buf { // backing store
        shared_ptr<__sx_node> node; string mem; bool isFile = false, isNull = false, readable = true, writable = true, app = false; size_t r = 0, w = 0; bool open = false;
        string &data() { return isFile ? node->data : mem; }
    };
    template<typename C, typename T> class basic_ios : public ios_base {
    public:
        iostate rdstate() const { return st_; } bool good() const { return st_ == 0; } bool eof() const { return (st_ & eofbit) != 0; } bool fail() const { return (st_ & (failbit | badbit)) != 0; } bool bad() const { return (st_ & badbit) != 0; }
        explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
        void clear(iostate s = goodbit) { st_ = s; if (ex_ & st_) throw failure("basic_ios::clear: iostream error"); } void setstate(iostate s) { clear(st_ | s); }
        iostate exceptions() const { return ex_; } void exceptions(iostate e) { ex_ = e; clear(st_); }
        C fill() const { return fill_; } C fill(C c) { C o = fill_; fill_ = c; return o; }
        void *tie() const { return nullptr; } template<typename X> void *tie(X *) { return nullptr; } locale imbue(const locale &) { return locale(); } locale getloc() const { return locale(); }
        basic_ios() {} explicit basic_ios(basic_ios *) {} explicit basic_ios(nullptr_t) {}
        basic_ios &copyfmt(const basic_ios &o) { f_ = o.f_; p_ = o.p_; w_ = o.w_; fill_ = o.fill_; return *this; }
        basic_ios *rdbuf() { return this; }
        __sx_buf b_;
    protected:
        iostate st_ = 0, ex_ = 0; C fill_ = ' ';
    };
    typedef basic_ios<char, char_traits<char>> ios;
    template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
    public:
        typedef basic_ostream self;
        basic_ostream &put(C c) { return write(&c, 1); }
        basic_ostream &write(const C *s, streamsize n) {
            auto &b = this->b_; if (b.isNull) return *this;
            if (this->st_ || !b.open || !b.writable) { this->setstate(ios_base::badbit); return *this; }
            string &d = b.data(); if (b.app) b.w = d.size();
            if (b.w == d.size()) d.append(s, (size_t) n);
            else { if (b.w > d.size()) d.append(b.w - d.size(), '\0'); size_t ov = min<size_t>((size_t) n, d.size() - b.w); for (size_t i = 0; i < ov; i++) d[b.w + i] = s[i]; d.append(s + ov, (size_t) n - ov); }
            b.w += (size_t) n; if (b.isFile) b.r = b.w; return *this;
        }
        basic_ostream &flush() { return *this; }
        streampos tellp() { return this->fail() ? streampos(-1) : streampos((streamoff) this->b_.w); }
        basic_ostream &seekp(streampos p) { if (!this->fail()) { this->b_.w = (size_t) (streamoff) p; if (this->b_.isFile) this->b_.r = this->b_.w; } return *this; }
        basic_ostream &seekp(streamoff o, ios_base::seekdir d) { return seekp(streampos(o + (d == 0 ? 0 : d == 1 ? (streamoff) this->b_.w : (streamoff) this->b_.data().size()))); }
        basic_ostream &__pad(const C *s, size_t n) {
            if (this->b_.isNull) return *this;
            streamsize w = this->w_; this->w_ = 0;
            if ((streamsize) n < w) { string p((size_t) w - n, this->fill_); if (this->f_ & ios_base::left) { write(s, (streamsize) n); write(p.data(), (streamsize) p.size()); } else { write(p.data(), (streamsize) p.size()); write(s, (streamsize) n); } }
            else write(s, (streamsize) n);
            return *this;
        }
        basic_ostream &__num(unsigned long v, bool neg) {
            if (this->b_.isNull) return *this;
            char t[72]; int i = 72; unsigned base = (this->f_ & ios_base::hex) ? 16 : (this->f_ & ios_base::oct) ? 8 : 10;
            do { unsigned d = (unsigned) (v % base); t[--i] = (char) (d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v);
            if (neg) t[--i] = '-';
            return __pad(t + i, (size_t) (72 - i));
        }
        basic_ostream &operator<<(long v) { if (this->f_ & (ios_base::hex | ios_base::oct)) return __num((unsigned long) v, false); return __num(v < 0 ? 0ul - (unsigned long) v : (unsigned long) v, v < 0); }
        basic_ostream &operator<<(unsigned long v) { return __num(v, false); }
        basic_ostream &operator<<(long long v) { return *this << (long) v; } basic_ostream &operator<<(unsigned long long v) { return *this << (unsigned long) v; }
        basic_ostream &operator<<(int v) { if (this->f_ & (ios_base::hex | ios_base::oct)) return __num((unsigned) v, false); return *this << (long) v; } basic_ostream &operator<<(unsigned v) { return __num(v, false); }
        basic_ostream &operator<<(short v) { return *this << (int) v; } basic_ostream &operator<<(unsigned short v) { return __num(v, false); }
        basic_ostream &operator<<(bool v) { if (this->f_ & ios_base::boolalpha) return v ? __pad("true", 4) : __pad("false", 5); return __num(v, false); }
        basic_ostream &operator<<(double v) {
            if (this->b_.isNull) return *this;
            if (__sx_loose_text) { long q; __builtin_memcpy(&q, &v, 8); if (sx_issym(q)) return __pad("?", 1); }
            char f[16]; int i = 0; f[i++] = '%'; f[i++] = '.'; int p = (int) this->p_; if (p < 0) p = 6; if (p >= 100) p = 99; if (p >= 10) f[i++] = (char) ('0' + p / 10); f[i++] = (char) ('0' + p % 10);
            unsigned ff = this->f_ & ios_base::floatfield; f[i++] = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? 'e' : 'g'; f[i] = 0;
            char t[420]; long n = sx_fmt(t, 420, v, f); return __pad(t, (size_t) n);
        }
        basic_ostream &operator<<(float v) { return *this << (double) v; } basic_ostream &operator<<(long double v) { return *this << (double) v; }
        basic_ostream &operator<<(const void *) { return __pad("0x0", 3); }
        basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
        basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
        basic_ostream &operator<<(basic_ios<C, T> *src) { string s = src->b_.data().substr(src->b_.r); return write(s.data(), (streamsize) s.size()); }
    };
    inline ostream &operator<<(ostream &o, char c) { return o.__pad(&c, 1); }
    inline ostream &operator<<(ostream &o, signed char c) { char d = (char) c; return o.__pad(&d, 1); }
    inline ostream &operator<<(ostream &o, unsigned char c) { char d = (char) c; return o.__pad(&d, 1); }
    inline ostream &operator<<(ostream &o, const char *s) { if (o.b_.isNull) return o; return o.__pad(s, strlen(s)); }
    inline ostream &operator<<(ostream &o, const string &s) { return o.__pad(s.data(), s.size()); }
    inline ostream &operator<<(ostream &o, string_view s) { return o.__pad(s.data(), s.size()); }
    template<typename C, typename T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
    template<typename C, typename T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
    template<typename C, typename T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }
    template<typename S, typename V> inline typename enable_if<is_base_of<ios_base, S>::value && !is_lvalue_reference<S>::value, S &&>::type operator<<(S &&s, const V &v) { s << v; return (S &&) s; }

    template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
    public:
        streamsize gcount() const { return g_; }
        bool __ok() { if (this->st_) { this->setstate(ios_base::failbit); return false; } if (!this->b_.open || !this->b_.readable) { this->setstate(ios_base::failbit | ios_base::eofbit); return false; } return true; }
        int get() { g_ = 0; if (!__ok()) return -1; string &d = this->b_.data(); if (this->b_.r >= d.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; } g_ = 1; return (unsigned char) d[this->b_.r++]; }
        basic_istream &get(C &c) { int v = get(); if (v >= 0) c = (C) v; return *this; }
        int peek() { g_ = 0; if (!this->good()) return -1; string &d = this->b_.data(); if (!this->b_.open || this->b_.r >= d.size()) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char) d[this->b_.r]; }
        basic_istream &unget() { this->st_ &= ~ios_base::eofbit; if (this->b_.r) this->b_.r--; return *this; }
        basic_istream &read(C *s, streamsize n) {
            g_ = 0; if (!__ok()) return *this; string &d = this->b_.data(); size_t av = this->b_.r < d.size() ? d.size() - this->b_.r : 0; size_t k = (size_t) n < av ? (size_t) n : av;
            if (k) memcpy(s, d.data() + this->b_.r, k); this->b_.r += k; if (this->b_.isFile) this->b_.w = this->b_.r; g_ = (streamsize) k; if (k < (size_t) n) this->setstate(ios_base::eofbit | ios_base::failbit); return *this;
        }
        streampos tellg() { this->st_ &= ~0u; return this->fail() ? streampos(-1) : streampos((streamoff) this->b_.r); }
        basic_istream &seekg(streampos p) { this->st_ &= ~ios_base::eofbit; if (!this->fail()) { streamoff o = (streamoff) p; if (o < 0) { this->setstate(ios_base::failbit); return *this; } this->b_.r = (size_t) o; if (this->b_.isFile) this->b_.w = this->b_.r; } return *this; }
        basic_istream &seekg(streamoff o, ios_base::seekdir d) { return seekg(streampos(o + (d == 0 ? 0 : d == 1 ? (streamoff) this->b_.r : (streamoff) this->b_.data().size()))); }
        basic_istream &ignore(streamsize n = 1, int delim = -1) { for (streamsize i = 0; i < n; i++) { int c = get(); if (c < 0 || c == delim) break; } return *this; }
        basic_istream &__line(string &s, C delim) {
            s.clear(); g_ = 0; if (!__ok()) return *this; string &d = this->b_.data(); size_t i = this->b_.r, n = d.size(); bool hit = false;
            while (i < n) { C c = d[i]; i++; if (c == delim) { hit = true; break; } s.push_back(c); }
            g_ = (streamsize) (i - this->b_.r); this->b_.r = i; if (!hit) this->setstate(g_ == 0 ? (ios_base::eofbit | ios_base::failbit) : ios_base::eofbit); return *this;
        }
        bool __skip() { if (!__ok()) return false; string &d = this->b_.data(); while (this->b_.r < d.size() && ::isspace((unsigned char) d[this->b_.r])) this->b_.r++; if (this->b_.r >= d.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; } return true; }
        string __word() { string w; if (!__skip()) return w; string &d = this->b_.data(); while (this->b_.r < d.size() && !::isspace((unsigned char) d[this->b_.r])) w.push_back(d[this->b_.r++]); if (this->b_.r >= d.size()) this->st_ |= ios_base::eofbit; return w; }
        basic_istream &operator>>(int &v) { string w = __word(); if (!w.empty()) v = (int) strtol(w.c_str(), nullptr, 10); return *this; }
        basic_istream &operator>>(float &v) { string w = __word(); if (!w.empty()) v = strtof(w.c_str(), nullptr); return *this; }
        basic_istream &operator>>(double &v) { string w = __word(); if (!w.empty()) v = strtod(w.c_str(), nullptr); return *this; }
    protected:
        streamsize g_ = 0;
    };
    inline istream &operator>>(istream &i, string &s) { s = i.__word(); return i; }
    inline istream &operator>>(istream &i, char &c) { if (i.__skip()) { int v = i.get(); c = (char) v; } return i; }
    inline istream &getline(istream &i, string &s, char d) { return i.__line(s, d); }
    inline istream &getline(istream &i, string &s) { return i.__line(s, '\n'); }
    inline istream &getline(istream &&i, string &s, char d) { return i.__line(s, d); }
    inline istream &getline(istream &&i, string &s) { return i.__line(s, '\n'); }
    template<typename C, typename T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { i.__skip(); return i; }
    template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};

    _GLIBCXX_BEGIN_NAMESPACE_CXX11
    template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> { public: basic_ostringstream() { this->b_.open = true; } explicit basic_ostringstream(const string &s) { this->b_.open = true; this->b_.mem = s; } string str() const { return this->b_.mem; } void str(const string &s) { this->b_.mem = s; this->b_.w = 0; } };
    template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> { public: basic_istringstream() { this->b_.open = true; } explicit basic_istringstream(const string &s, ios_base::openmode = ios_base::in) { this->b_.open = true; this->b_.mem = s; } string str() const { return this->b_.mem; } void str(const string &s) { this->b_.mem = s; this->b_.r = 0; } };
    template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> { public: basic_stringstream() { this->b_.open = true; } explicit basic_stringstream(const string &s, ios_base::openmode = ios_base::in | ios_base::out) { this->b_.open = true; this->b_.mem = s; } basic_stringstream(const basic_stringstream &o) = delete; basic_stringstream(basic_stringstream &&o) { this->b_ = o.b_; } string str() const { return this->b_.mem; } void str(const string &s) { this->b_.mem = s; this->b_.r = this->b_.w = 0; } };
    _GLIBCXX_END_NAMESPACE_CXX11

    template<typename B> struct __sx_filebase : public B {
        void __open(const string &p, ios_base::openmode m) {
            auto &b = this->b_; if (b.open) { this->setstate(ios_base::failbit); return; }
            string n = __sx_norm(p); auto &fs = __sx_fs().nodes; auto it = fs.find(n); shared_ptr<__sx_node> nd = it == fs.end() ? nullptr : it->second;
            bool wr = (m & (ios_base::out | ios_base::app)) != 0, rd = (m & ios_base::in) != 0;
            bool okk = !p.empty();
            if (wr) {
                if (nd && nd->dir) okk = false;
                if (!nd) { if (rd && !(m & (ios_base::trunc | ios_base::app))) okk = false; auto par = fs.find(__sx_parent(n)); if (par == fs.end() || !par->second->dir) okk = false; if (okk) { nd = make_shared<__sx_node>(); fs[n] = nd; } }
                else if (okk && ((m & ios_base::trunc) || (!(m & ios_base::app) && !rd))) nd->data.clear();
            } else if (!nd) okk = false;
            if (!okk) { this->setstate(ios_base::failbit); return; }
            b.isFile = true; b.node = nd; b.open = true; b.readable = rd; b.writable = wr; b.app = (m & ios_base::app) != 0; b.r = 0; b.w = (m & (ios_base::ate | ios_base::app)) ? nd->data.size() : 0; if (m & ios_base::ate) b.r = b.w; this->clear();
        }
        bool is_open() const { return this->b_.open; }
        void close() { if (!this->b_.open) { this->setstate(ios_base::failbit); return; } this->b_.open = false; this->b_.node.reset(); this->b_.isFile = false; this->b_.mem.clear(); this->b_.r = this->b_.w = 0; }
        __sx_filebase() {}
        __sx_filebase(__sx_filebase &&o) { this->b_ = o.b_; o.b_ = __sx_buf(); }
        __sx_filebase &operator=(__sx_filebase &&o) { this->b_ = o.b_; o.b_ = __sx_buf(); this->st_ = o.st_; return *this; }
    };
#define SX_FILE(NAME, BASE, DEF) \
    template<typename C, typename T> class NAME : public __sx_filebase<BASE<C, T>> { public: NAME() {} NAME(NAME &&) = default; NAME &operator=(NAME &&) = default; explicit NAME(const string &p, ios_base::openmode m = DEF) { this->__open(p, m | (DEF == (ios_base::in | ios_base::out) ? 0 : DEF)); } explicit NAME(const char *p, ios_base::openmode m = DEF) : NAME(string(p), m) {} \
        template<typename P, typename = decltype(declval<P>().native())> explicit NAME(const P &p, ios_base::openmode m = DEF) : NAME(string(p.native()), m) {} \
        void open(const string &p, ios_base::openmode m = DEF) { this->__open(p, m | (DEF == (ios_base::in | ios_base::out) ? 0 : DEF)); } };
    SX_FILE(basic_ofstream, basic_ostream, ios_base::out)
    SX_FILE(basic_ifstream, basic_istream, ios_base::in)
    SX_FILE(basic_fstream, basic_iostream, (ios_base::in | ios_base::out))

    struct __sx_nullstream : public ostream { __sx_nullstream() { this->b_.isNull = true; this->b_.open = true; } };
    struct __sx_cin : public istream { __sx_cin() { this->b_.open = true; } };
    inline __sx_nullstream cout, cerr, clog; inline __sx_cin cin;

    inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
    inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
    inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
    inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; } inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; } inline ios_base &skipws(ios_base &b) { return b; } inline ios_base &noskipws(ios_base &b) { return b; }
    struct __sx_setw { long n; }; struct __sx_setp { long n; }; struct __sx_setfill { char c; };
    inline __sx_setw setw(long n) { return {n}; } inline __sx_setp setprecision(long n) { return {n}; } inline __sx_setfill setfill(char c) { return {c}; }
    inline ostream &operator<<(ostream &o, __sx_setw w) { o.width(w.n); return o; } inline ostream &operator<<(ostream &o, __sx_setp w) { o.precision(w.n); return o; } inline ostream &operator<<(ostream &o, __sx_setfill w) { o.fill(w.c); return o; }
    template<typename X> struct __sx_put_time { }; template<typename X> inline __sx_put_time<X> put_time(const X *, const char *) { return {}; } template<typename X> inline ostream &operator<<(ostream &o, __sx_put_time<X>) { return o << "time"; }
    inline string __sx_quote(const string &s) { string r = "\""; for (char c: s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
    struct __sx_q { string s; }; inline __sx_q quoted(const string &s) { return {__sx_quote(s)}; } inline ostream &operator<<(ostream &o, const __sx_q &q) { return o << q.s; }

    // ---- filesystem
    namespace filesystem {
        class filesystem_error : public system_error { public: filesystem_error(const string &w, error_code c) : system_error(c, w) {} };
        class path {
        public:
            path() {} path(const string &s) : s_(s) {} path(const char *s) : s_(s) {} path(string_view s) : s_(s) {}
            const string &native() const { return s_; } const char *c_str() const { return s_.c_str(); } string string() const { return s_; } std::string generic_string() const { return s_; } std::string u8string() const { return s_; } operator std::string() const { return s_; }
            path filename() const { size_t p = s_.rfind('/'); return p == std::string::npos ? path(s_) : path(s_.substr(p + 1)); }
            path parent_path() const { size_t p = s_.rfind('/'); return p == std::string::npos ? path() : p == 0 ? path("/") : path(s_.substr(0, p)); }
            path extension() const { std::string f = filename().s_; size_t p = f.rfind('.'); return p == std::string::npos || p == 0 || f == ".." ? path() : path(f.substr(p)); }
            path stem() const { std::string f = filename().s_; size_t p = f.rfind('.'); return p == std::string::npos || p == 0 ? path(f) : path(f.substr(0, p)); }
            path &operator/=(const path &o) { if (!o.s_.empty() && o.s_[0] == '/') s_ = o.s_; else { if (!s_.empty() && s_.back() != '/') s_ += '/'; s_ += o.s_; } return *this; }
            path &operator+=(const std::string &o) { s_ += o; return *this; }
            friend path operator/(const path &a, const path &b) { path r = a; r /= b; return r; }
            bool empty() const { return s_.empty(); } bool is_absolute() const { return !s_.empty() && s_[0] == '/'; } bool is_relative() const { return !is_absolute(); } bool has_parent_path() const { return !parent_path().empty(); } bool has_filename() const { return !filename().empty(); } bool has_extension() const { return !extension().empty(); }
            path lexically_normal() const { return path(__sx_norm(s_)); }
            path &replace_extension(const path &e = path()) { std::string ex = extension().s_; s_ = s_.substr(0, s_.size() - ex.size()); if (!e.s_.empty()) { if (e.s_[0] != '.') s_ += '.'; s_ += e.s_; } return *this; }
            bool operator==(const path &o) const { return s_ == o.s_; } bool operator!=(const path &o) const { return s_ != o.s_; } bool operator<(const path &o) const { return s_ < o.s_; }
        private:
            std::string s_;
        };
        inline ostream &operator<<(ostream &o, const path &p) { return o << __sx_quote(p.native()); }
        [[noreturn]] inline void __sx_fail(const char *w) { throw filesystem_error(w, make_error_code(errc::no_such_file_or_directory)); }
        inline bool exists(const path &p) { return (bool) __sx_find(p.native()); } inline bool exists(const path &p, error_code &) { return exists(p); }
        inline bool is_directory(const path &p) { auto n = __sx_find(p.native()); return n && n->dir; } inline bool is_directory(const path &p, error_code &) { return is_directory(p); }
        inline bool is_regular_file(const path &p) { auto n = __sx_find(p.native()); return n && !n->dir; }
        inline uintmax_t file_size(const path &p) { auto n = __sx_find(p.native()); if (!n || n->dir) __sx_fail("file_size"); return n->data.size(); }
        inline bool create_directory(const path &p) { string n = __sx_norm(p.native()); auto &fs = __sx_fs().nodes; auto it = fs.find(n); if (it != fs.end()) { if (!it->second->dir) __sx_fail("create_directory"); return false; } auto par = fs.find(__sx_parent(n)); if (par == fs.end()) __sx_fail("create_directory"); auto nd = make_shared<__sx_node>(); nd->dir = true; fs[n] = nd; return true; }
        inline bool create_directories(const path &p) { if (p.empty()) __sx_fail("create_directories"); string n = __sx_norm(p.native()); bool made = false; size_t i = 0; while (i != string::npos) { i = n.find('/', i + 1); string sub = n.substr(0, i); if (!sub.empty()) made = create_directory(path(sub)) || made; } return made; }
        inline bool __sx_hasKids(const string &n) { for (auto &e: __sx_fs().nodes) if (e.first.size() > n.size() && e.first.compare(0, n.size(), n) == 0 && e.first[n.size()] == '/') return true; return false; }
        inline bool remove(const path &p) { if (p.empty()) return false; string n = __sx_norm(p.native()); auto &fs = __sx_fs().nodes; auto it = fs.find(n); if (it == fs.end()) return false; if (it->second->dir && __sx_hasKids(n)) __sx_fail("remove"); fs.erase(it); return true; } inline bool remove(const path &p, error_code &) { return remove(p); }
        inline uintmax_t remove_all(const path &p) { if (p.empty()) return 0; string n = __sx_norm(p.native()); auto &fs = __sx_fs().nodes; uintmax_t c = 0; for (auto it = fs.begin(); it != fs.end();) { auto &k = it->first; if (k == n || (k.size() > n.size() && k.compare(0, n.size(), n) == 0 && k[n.size()] == '/')) { it = fs.erase(it); c++; } else ++it; } return c; }
        inline void rename(const path &a, const path &b) { auto &fs = __sx_fs().nodes; auto it = fs.find(__sx_norm(a.native())); if (it == fs.end()) __sx_fail("rename"); auto nd = it->second; fs.erase(it); fs[__sx_norm(b.native())] = nd; }
        enum class copy_options { none = 0, overwrite_existing = 1, recursive = 2, skip_existing = 4, update_existing = 8 }; inline copy_options operator|(copy_options a, copy_options b) { return (copy_options) ((int) a | (int) b); }
        inline bool copy_file(const path &a, const path &b, copy_options o = copy_options::none) { auto n = __sx_find(a.native()); if (!n || n->dir) __sx_fail("copy_file"); auto d = __sx_find(b.native()); if (d && o == copy_options::none) __sx_fail("copy_file"); auto nd = make_shared<__sx_node>(); nd->data = n->data; __sx_fs().nodes[__sx_norm(b.native())] = nd; return true; }
        inline path canonical(const path &p) { if (!exists(p)) __sx_fail("canonical"); return path(__sx_norm(p.native())); } inline path weakly_canonical(const path &p) { return path(__sx_norm(p.native())); } inline path absolute(const path &p) { return p.is_absolute() ? p : path("/sx/" + p.native()); }
        inline path current_path() { return path("/sx"); } inline path temp_directory_path() { return path("/tmp"); }
        inline bool is_empty(const path &p) { auto n = __sx_find(p.native()); if (!n) __sx_fail("is_empty"); return n->dir ? !__sx_hasKids(__sx_norm(p.native())) : n->data.empty(); }
        class directory_entry { public: directory_entry() {} explicit directory_entry(const filesystem::path &p) : p_(p) {} const filesystem::path &path() const { return p_; } bool is_directory() const { return filesystem::is_directory(p_); } bool is_regular_file() const { return filesystem::is_regular_file(p_); } bool exists() const { return filesystem::exists(p_); } operator const filesystem::path &() const { return p_; } uintmax_t file_size() const { return filesystem::file_size(p_); } private: filesystem::path p_; };
        class directory_iterator {
        public:
            typedef directory_entry value_type; typedef ptrdiff_t difference_type; typedef const directory_entry *pointer; typedef const directory_entry &reference; typedef input_iterator_tag iterator_category;
            directory_iterator() {} explicit directory_iterator(const path &p) { auto n = __sx_find(p.native()); if (!n || !n->dir) __sx_fail("directory_iterator"); v_ = make_shared<vector<directory_entry>>(); string b = __sx_norm(p.native()); string pre = b == "/" ? b : b + "/"; for (auto &e: __sx_fs().nodes) if (e.first.size() > pre.size() && e.first.compare(0, pre.size(), pre) == 0 && e.first.find('/', pre.size()) == string::npos) v_->push_back(directory_entry(p / path(e.first.substr(pre.size())))); }
            const directory_entry &operator*() const { return (*v_)[i_]; } const directory_entry *operator->() const { return &(*v_)[i_]; } directory_iterator &operator++() { i_++; return *this; }
            bool __end() const { return !v_ || i_ >= v_->size(); } bool operator!=(const directory_iterator &o) const { return __end() != o.__end() || (!__end() && i_ != o.i_); } bool operator==(const directory_iterator &o) const { return !(*this != o); }
        private:
            shared_ptr<vector<directory_entry>> v_; size_t i_ = 0;
        };
        inline directory_iterator begin(directory_iterator i) { return i; } inline directory_iterator end(const directory_iterator &) { return directory_iterator(); }
    }
    // ---- execution policies run sequentially
    namespace execution { struct sequenced_policy {}; struct parallel_policy {}; struct parallel_unsequenced_policy {}; inline constexpr sequenced_policy seq{}; inline constexpr parallel_policy par{}; inline constexpr parallel_unsequenced_policy par_unseq{}; }
    template<typename I, typename F> inline void for_each(const execution::parallel_policy &, I a, I b, F f) { for (; a != b; ++a) f(*a); }
    template<typename I, typename F> inline void for_each(const execution::parallel_unsequenced_policy &, I a, I b, F f) { for (; a != b; ++a) f(*a); }
    template<typename I, typename F> inline void for_each(const execution::sequenced_policy &, I a, I b, F f) { for (; a != b; ++a) f(*a); }
    // ---- async runs the task at once
    enum class launch { async = 1, deferred = 2 }; enum class future_status { ready, timeout, deferred };
    template<typename R> class future { public: future() {} future(future &&) = default; future &operator=(future &&) = default; void wait() const {} R get() { return std::move(*v_); } bool valid() const { return (bool) v_; } template<typename D> future_status wait_for(const D &) const { return future_status::ready; } shared_ptr<R> v_; };
    template<> class future<void> { public: void wait() const {} void get() { if (e_) { auto f = *e_; f(); } } bool valid() const { return true; } template<typename D> future_status wait_for(const D &) const { return future_status::ready; } shared_ptr<function<void()>> e_; };
    template<typename F, typename... A> inline auto async(launch, F &&f, A &&... a) -> future<decay_t<invoke_result_t<decay_t<F>, decay_t<A>...>>> {
        typedef decay_t<invoke_result_t<decay_t<F>, decay_t<A>...>> R; future<R> r;
        if constexpr (is_void<R>::value) std::invoke(std::forward<F>(f), std::forward<A>(a)...); else r.v_ = make_shared<R>(std::invoke(std::forward<F>(f), std::forward<A>(a)...));
        return r;
    }
    class thread { public: thread() {} template<typename F, typename... A, typename = enable_if_t<!is_same<decay_t<F>, thread>::value>> explicit thread(F &&f, A &&... a) { std::invoke(std::forward<F>(f), std::forward<A>(a)...); } thread(thread &&) {} thread &operator=(thread &&) { return *this; } void join() {} void detach() {} bool joinable() const { return true; } static unsigned hardware_concurrency() { return 1; } };
    namespace this_thread { template<typename D> inline void sleep_for(const D &d) { __sx_clk += (long) (d.count() * (1000000000l / D::period::den) * D::period::num); } inline void yield() {} }
    class condition_variable { public: void notify_one() {} void notify_all() {} template<typename L> void wait(L &) {} template<typename L, typename P> void wait(L &, P) {} };
}
