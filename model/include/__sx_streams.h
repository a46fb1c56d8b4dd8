// Contract model of the C++ standard stream classes, used only when compiling for the symbolic executor.
// Text inserted into a stream is appended verbatim; integers follow the ios_base formatting flags; string streams hold their
// text; a file stream forwards to the modelled file system, keeping unflushed text in a buffer until flush/close.
#ifndef SX_STREAMS
#define SX_STREAMS 1
#include <iosfwd>
#include <string>
#include <string_view>
#include <cstring>
#include <cstdint>
#include <system_error>
#include <ctime>
#include <utility>
#include <iterator>
#include <type_traits>
extern "C" int __env_open(const char* path, unsigned long len, int mode);
extern "C" void __env_write(int fd, const char* p, unsigned long n);
extern "C" void __env_close(int fd);
extern "C" int __symx_fmt_double(char* b, unsigned long n, const char* fmt, double d);
extern "C" size_t strftime(char*, size_t, const char*, const struct tm*) noexcept;
namespace std {
class locale { public: locale() {} locale(const char*) {} locale(const std::string&) {} static const locale& classic() { static locale l; return l; } std::string name() const { return "C"; } static locale global(const locale& l) { return l; } };
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384;
  static constexpr fmtflags adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  struct Init { Init() {} };
  class failure : public std::runtime_error { public: failure(const std::string& s) : runtime_error(s) {} failure(const char* s) : runtime_error(s) {} failure(const char* s, const error_code&) : runtime_error(s) {} };
  fmtflags flags() const { return _fl; } fmtflags flags(fmtflags f) { auto o = _fl; _fl = f; return o; }
  fmtflags setf(fmtflags f) { auto o = _fl; _fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = _fl; _fl = (_fl & ~m) | (f & m); return o; } void unsetf(fmtflags f) { _fl &= ~f; }
  streamsize width() const { return _wd; } streamsize width(streamsize w) { auto o = _wd; _wd = w; return o; }
  streamsize precision() const { return _pr; } streamsize precision(streamsize w) { auto o = _pr; _pr = w; return o; }
  locale imbue(const locale& l) { return l; } locale getloc() const { return locale(); }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
protected:
  fmtflags _fl = dec | skipws; streamsize _wd = 0, _pr = 6;
};
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; } inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; } inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; } inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; } inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; } inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; } inline ios_base& unitbuf(ios_base& b) { b.setf(ios_base::unitbuf); return b; } inline ios_base& nounitbuf(ios_base& b) { b.unsetf(ios_base::unitbuf); return b; } inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }

template <typename C, typename T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  virtual ~basic_streambuf() {}
  streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); }
  int_type sputc(C c) { return xsputn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); }
  int pubsync() { return sync(); }
  int_type sgetc() { return underflow(); } int_type sbumpc() { return uflow(); } int_type snextc() { uflow(); return underflow(); }
protected:
  virtual streamsize xsputn(const C* s, streamsize n) { for (streamsize i = 0; i < n; i++) if (T::eq_int_type(overflow(T::to_int_type(s[i])), T::eof())) return i; return n; }
  virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
  virtual int sync() { return 0; }
  virtual int_type underflow() { return T::eof(); } virtual int_type uflow() { return T::eof(); }
};
template <typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef streamoff off_type; typedef streampos pos_type;
  basic_ios() {} explicit basic_ios(basic_streambuf<C, T>* b) : _sb(b) {}
  void init(basic_streambuf<C, T>* b) { _sb = b; _st = b ? goodbit : badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  iostate rdstate() const { return _st; } void clear(iostate s = goodbit) { _st = s; } void setstate(iostate s) { clear(_st | s); } void _M_setstate(iostate s) { _st |= s; }
  bool good() const { return _st == 0; } bool eof() const { return _st & eofbit; } bool fail() const { return _st & (badbit | failbit); } bool bad() const { return _st & badbit; }
  iostate exceptions() const { return 0; } void exceptions(iostate) {}
  basic_streambuf<C, T>* rdbuf() const { return _sb; } basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = _sb; _sb = b; clear(); return o; }
  basic_ostream<C, T>* tie() const { return nullptr; } basic_ostream<C, T>* tie(basic_ostream<C, T>*) { return nullptr; }
  C fill() const { return _fi; } C fill(C c) { auto o = _fi; _fi = c; return o; }
  basic_ios& copyfmt(const basic_ios& o) { _fl = o._fl; _wd = o._wd; _pr = o._pr; _fi = o._fi; return *this; }
  C widen(char c) const { return c; } char narrow(C c, char) const { return c; }
protected:
  basic_streambuf<C, T>* _sb = nullptr; iostate _st = badbit; C _fi = ' ';
};
template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef streampos pos_type; typedef streamoff off_type;
  class sentry { basic_ostream& _o; bool _ok; public: explicit sentry(basic_ostream& o) : _o(o), _ok(o.good()) { if (!_ok) o.setstate(ios_base::failbit); } ~sentry() { if ((_o.flags() & ios_base::unitbuf)) _o.flush(); } explicit operator bool() const { return _ok; } };
  explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
  virtual ~basic_ostream() {}
  basic_ostream(const basic_ostream&) = delete; basic_ostream& operator=(const basic_ostream&) = delete;
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
  basic_ostream& operator<<(bool b) { if (this->flags() & ios_base::boolalpha) { const char* s = b ? "true" : "false"; return _put(s, strlen(s)); } return _int((unsigned long long)b, false, 64, false); }
  basic_ostream& operator<<(short v) { return (this->flags() & (ios_base::hex | ios_base::oct)) ? _int((unsigned short)v, false, 16, false) : _sint(v); }
  basic_ostream& operator<<(unsigned short v) { return _int(v, false, 16, false); }
  basic_ostream& operator<<(int v) { return (this->flags() & (ios_base::hex | ios_base::oct)) ? _int((unsigned)v, false, 32, false) : _sint(v); }
  basic_ostream& operator<<(unsigned v) { return _int(v, false, 32, false); }
  basic_ostream& operator<<(long v) { return (this->flags() & (ios_base::hex | ios_base::oct)) ? _int((unsigned long)v, false, 64, false) : _sint(v); }
  basic_ostream& operator<<(unsigned long v) { return _int(v, false, 64, false); }
  basic_ostream& operator<<(long long v) { return (this->flags() & (ios_base::hex | ios_base::oct)) ? _int((unsigned long long)v, false, 64, false) : _sint(v); }
  basic_ostream& operator<<(unsigned long long v) { return _int(v, false, 64, false); }
  basic_ostream& operator<<(double d) { return _dbl(d); } basic_ostream& operator<<(float d) { return _dbl(d); } basic_ostream& operator<<(long double d) { return _dbl((double)d); }
  basic_ostream& operator<<(const void* p) { auto f = this->flags(); this->setf(ios_base::hex, ios_base::basefield); this->setf(ios_base::showbase); _int((unsigned long long)p, false, 64, false); this->flags(f); return *this; }
  basic_ostream& operator<<(nullptr_t) { return _put("nullptr", 7); }
  basic_ostream& operator<<(basic_streambuf<C, T>* sb) { if (!sb) { this->setstate(ios_base::badbit); return *this; } for (auto c = sb->sgetc(); !T::eq_int_type(c, T::eof()); c = sb->snextc()) put(T::to_char_type(c)); return *this; }
  basic_ostream& put(C c) { if (this->good()) { if (this->_sb->sputn(&c, 1) != 1) this->setstate(ios_base::badbit); } return *this; }
  basic_ostream& write(const C* s, streamsize n) { if (this->good()) { if (this->_sb->sputn(s, n) != n) this->setstate(ios_base::badbit); if (this->flags() & ios_base::unitbuf) flush(); } return *this; }
  basic_ostream& flush() { if (this->_sb && this->_sb->pubsync() == -1) this->setstate(ios_base::badbit); return *this; }
  pos_type tellp() { return pos_type(-1); } basic_ostream& seekp(pos_type) { return *this; } basic_ostream& seekp(off_type, ios_base::seekdir) { return *this; }
  basic_ostream& _put(const C* s, streamsize n) {
    if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
    streamsize w = this->width(); this->width(0);
    if (w > n) { bool l = (this->flags() & ios_base::adjustfield) == ios_base::left; C f = this->fill(); if (!l) for (streamsize i = n; i < w; i++) this->_sb->sputn(&f, 1); this->_sb->sputn(s, n); if (l) for (streamsize i = n; i < w; i++) this->_sb->sputn(&f, 1); }
    else if (n && this->_sb->sputn(s, n) != n) this->setstate(ios_base::badbit);
    if (this->flags() & ios_base::unitbuf) flush();
    return *this;
  }
  basic_ostream& _sint(long long v) { bool neg = v < 0; return _int(neg ? 0ull - (unsigned long long)v : (unsigned long long)v, neg, 64, true); }
  basic_ostream& _int(unsigned long long v, bool neg, int, bool sgn) {
    C buf[72]; int n = 72; auto fl = this->flags(); unsigned base = (fl & ios_base::hex) ? 16 : (fl & ios_base::oct) ? 8 : 10; const char* dg = (fl & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef"; bool z = v == 0;
    do { buf[--n] = dg[v % base]; v /= base; } while (v);
    int pre = 0; if (base == 16 && (fl & ios_base::showbase) && !z) { buf[--n] = (fl & ios_base::uppercase) ? 'X' : 'x'; buf[--n] = '0'; pre = 2; } else if (base == 8 && (fl & ios_base::showbase) && !z) { buf[--n] = '0'; }
    if (neg) { buf[--n] = '-'; pre = 1; } else if (sgn && (fl & ios_base::showpos) && base == 10) { buf[--n] = '+'; pre = 1; }
    if ((fl & ios_base::adjustfield) == ios_base::internal && this->width() > 72 - n) { streamsize w = this->width(); this->width(0); std::basic_string<C> s(buf + n, pre); s.append(w - (72 - n), this->fill()); s.append(buf + n + pre, 72 - n - pre); return _put(s.data(), s.size()); }
    return _put(buf + n, 72 - n);
  }
  basic_ostream& _dbl(double d) { char fm[16]; char buf[512]; auto ff = this->flags() & ios_base::floatfield; const char* c = ff == ios_base::fixed ? "f" : ff == ios_base::scientific ? "e" : "g"; int p = (int)this->precision(); int i = 0; fm[i++] = '%'; if (this->flags() & ios_base::showpoint) fm[i++] = '#'; fm[i++] = '.'; if (p >= 10) fm[i++] = '0' + p / 10 % 10; fm[i++] = '0' + p % 10; fm[i++] = *c; fm[i] = 0; int n = __symx_fmt_double(buf, sizeof buf, fm, d); return _put(buf, n); }
protected:
  basic_ostream() {}
};
template <typename C, typename T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); return o.flush(); }
template <typename C, typename T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
template <typename C, typename T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o._put(&c, 1); }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char d = c; return o._put(&d, 1); }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char d = c; return o._put(&d, 1); }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._put(s, strlen(s)); }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const unsigned char* s) { return o << (const char*)s; }
template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const signed char* s) { return o << (const char*)s; }
template <typename O, typename V, typename = typename enable_if<is_base_of<ios_base, O>::value && !is_lvalue_reference<O>::value>::type> inline O&& operator<<(O&& o, const V& v) { o << v; return std::move(o); }

template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef streampos pos_type; typedef streamoff off_type;
  explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_istream() {}
  int_type peek() { auto c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); return c; }
  int_type get() { _gc = 0; auto c = this->_sb->sbumpc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit | ios_base::failbit); else _gc = 1; return c; }
  basic_istream& get(C& c) { auto x = get(); if (!T::eq_int_type(x, T::eof())) c = T::to_char_type(x); return *this; }
  streamsize gcount() const { return _gc; }
  basic_istream& read(C* s, streamsize n) { streamsize i = 0; for (; i < n; i++) { auto c = this->_sb->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit | ios_base::failbit); break; } s[i] = T::to_char_type(c); } _gc = i; return *this; }
  void _ws() { for (;;) { auto c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) return; if (!(c == ' ' || (c >= 9 && c <= 13))) return; this->_sb->sbumpc(); } }
  template <typename I> basic_istream& _rd(I& v) { if (!this->good()) { this->setstate(ios_base::failbit); return *this; } _ws(); bool neg = false; auto c = this->_sb->sgetc(); if (c == '-' || c == '+') { neg = c == '-'; this->_sb->sbumpc(); c = this->_sb->sgetc(); } bool any = false; I r = 0; while (!T::eq_int_type(c, T::eof()) && c >= '0' && c <= '9') { r = r * 10 + (c - '0'); any = true; this->_sb->sbumpc(); c = this->_sb->sgetc(); } if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); if (!any) { this->setstate(ios_base::failbit); v = 0; } else v = neg ? (I)(0 - r) : r; return *this; }
  basic_istream& operator>>(int& v) { return _rd(v); } basic_istream& operator>>(unsigned& v) { return _rd(v); } basic_istream& operator>>(long& v) { return _rd(v); } basic_istream& operator>>(unsigned long& v) { return _rd(v); } basic_istream& operator>>(long long& v) { return _rd(v); } basic_istream& operator>>(unsigned long long& v) { return _rd(v); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
protected:
  basic_istream() {} streamsize _gc = 0;
};
template <typename T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) { if (!i.good()) { i.setstate(ios_base::failbit); return i; } i._ws(); i.get(c); return i; }
inline basic_istream<char>& operator>>(basic_istream<char>& i, std::string& s) { typedef char C; typedef char_traits<char> T; if (!i.good()) { i.setstate(ios_base::failbit); return i; } i._ws(); s.clear(); for (;;) { auto c = i.rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit); break; } if (c == ' ' || (c >= 9 && c <= 13)) break; s.push_back(T::to_char_type(c)); i.rdbuf()->sbumpc(); } if (s.empty()) i.setstate(ios_base::failbit); return i; }
inline basic_istream<char>& getline(basic_istream<char>& i, std::string& s, char d) { typedef char C; typedef char_traits<char> T; if (!i.good()) { i.setstate(ios_base::failbit); return i; } s.clear(); bool any = false; for (;;) { auto c = i.rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) { i.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit)); break; } any = true; if (T::to_char_type(c) == d) break; s.push_back(T::to_char_type(c)); } return i; }
inline basic_istream<char>& getline(basic_istream<char>& i, std::string& s) { return getline(i, s, '\n'); }
template <typename C, typename T> inline basic_istream<C, T>& ws(basic_istream<C, T>& i) { i._ws(); return i; }
template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_iostream() {} protected: basic_iostream() {} };

inline namespace __cxx11 {
template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  typedef typename T::int_type int_type; typedef basic_string<C, T, A> str_t;
  basic_stringbuf() {} explicit basic_stringbuf(ios_base::openmode) {} explicit basic_stringbuf(const str_t& s, ios_base::openmode m = ios_base::in | ios_base::out) : _s(s), _w((m & (ios_base::ate | ios_base::app)) ? s.size() : 0) {}
  basic_stringbuf(basic_stringbuf&& o) : _s(std::move(o._s)), _w(o._w), _r(o._r) { o._s.clear(); o._w = o._r = 0; } basic_stringbuf& operator=(basic_stringbuf&& o) { _s = std::move(o._s); _w = o._w; _r = o._r; o._s.clear(); o._w = o._r = 0; return *this; }
  str_t str() const { return _s; } void str(const str_t& s) { _s = s; _w = 0; _r = 0; }
  size_t _w = 0, _r = 0;
protected:
  streamsize xsputn(const C* p, streamsize n) override { if (_w == _s.size()) _s.append(p, n); else { size_t k = std::min<size_t>(n, _s.size() - _w); _s.replace(_w, k, p, n); } _w += n; return n; }
  int_type underflow() override { return _r < _s.size() ? T::to_int_type(_s[_r]) : T::eof(); } int_type uflow() override { return _r < _s.size() ? T::to_int_type(_s[_r++]) : T::eof(); }
  str_t _s;
};
template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
  basic_stringbuf<C, T, A> _b;
public:
  basic_ostringstream() { this->init(&_b); } explicit basic_ostringstream(ios_base::openmode) { this->init(&_b); } explicit basic_ostringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::out) : _b(s, m) { this->init(&_b); }
  basic_ostringstream(basic_ostringstream&& o) : _b(std::move(o._b)) { this->init(&_b); } basic_ostringstream& operator=(basic_ostringstream&& o) { _b = std::move(o._b); return *this; }
  basic_string<C, T, A> str() const { return _b.str(); } void str(const basic_string<C, T, A>& s) { _b.str(s); } basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&_b); } streampos tellp() { return streampos((streamoff)_b._w); }
};
template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
  basic_stringbuf<C, T, A> _b;
public:
  basic_istringstream() { this->init(&_b); } explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode = ios_base::in) : _b(s) { this->init(&_b); }
  basic_string<C, T, A> str() const { return _b.str(); } void str(const basic_string<C, T, A>& s) { _b.str(s); }
};
template <typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
  basic_stringbuf<C, T, A> _b;
public:
  basic_stringstream() { this->init(&_b); } explicit basic_stringstream(ios_base::openmode) { this->init(&_b); } explicit basic_stringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in | ios_base::out) : _b(s, m) { this->init(&_b); }
  basic_stringstream(basic_stringstream&& o) : _b(std::move(o._b)) { this->init(&_b); }
  basic_string<C, T, A> str() const { return _b.str(); } void str(const basic_string<C, T, A>& s) { _b.str(s); }
};
}
// file buffer: text stays in _p until flush or close
template <typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {
public:
  int _fd = -1; basic_string<C> _p;
  ~basic_filebuf() { close(); }
  basic_filebuf() {} basic_filebuf(basic_filebuf&& o) : _fd(o._fd), _p(std::move(o._p)) { o._fd = -1; o._p.clear(); }
  basic_filebuf& operator=(basic_filebuf&& o) { close(); _fd = o._fd; _p = std::move(o._p); o._fd = -1; o._p.clear(); return *this; }
  bool is_open() const { return _fd >= 0; }
  basic_filebuf* open(const std::string& p, ios_base::openmode m) { if (is_open()) return nullptr; _fd = __env_open(p.data(), p.size(), (int)m); return _fd >= 0 ? this : nullptr; }
  basic_filebuf* open(const char* p, ios_base::openmode m) { return open(std::string(p), m); }
  basic_filebuf* close() { if (!is_open()) return nullptr; sync(); __env_close(_fd); _fd = -1; return this; }
protected:
  streamsize xsputn(const C* p, streamsize n) override { if (!is_open()) return 0; _p.append(p, n); return n; }
  int sync() override { if (is_open() && !_p.empty()) { __env_write(_fd, _p.data(), _p.size()); _p.clear(); } return 0; }
};
template <typename C, typename T> class basic_ofstream : public basic_ostream<C, T> {
  basic_filebuf<C, T> _b;
public:
  basic_ofstream() { this->init(&_b); } ~basic_ofstream() {}
  explicit basic_ofstream(const std::string& p, ios_base::openmode m = ios_base::out) { this->init(&_b); open(p, m); } explicit basic_ofstream(const char* p, ios_base::openmode m = ios_base::out) { this->init(&_b); open(p, m); }
  basic_ofstream(basic_ofstream&& o) : _b(std::move(o._b)) { this->init(&_b); this->_st = o._st; } basic_ofstream& operator=(basic_ofstream&& o) { _b = std::move(o._b); this->_st = o._st; return *this; }
  bool is_open() const { return _b.is_open(); } void open(const std::string& p, ios_base::openmode m = ios_base::out) { if (_b.open(p, m | ios_base::out)) this->clear(); else this->setstate(ios_base::failbit); } void open(const char* p, ios_base::openmode m = ios_base::out) { open(std::string(p), m); }
  void close() { if (!_b.close()) this->setstate(ios_base::failbit); } basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&_b); }
  void swap(basic_ofstream& o) { basic_filebuf<C, T> t(std::move(_b)); _b = std::move(o._b); o._b = std::move(t); std::swap(this->_st, o._st); }
};
template <typename C, typename T> class basic_ifstream : public basic_istream<C, T> { basic_filebuf<C, T> _b; public: basic_ifstream() { this->init(&_b); this->setstate(ios_base::failbit); } explicit basic_ifstream(const std::string&, ios_base::openmode = ios_base::in) { this->init(&_b); this->setstate(ios_base::failbit); } bool is_open() const { return false; } bool good() const { return false; } void close() {} };
template <typename C, typename T> class basic_fstream : public basic_iostream<C, T> { basic_filebuf<C, T> _b; public: basic_fstream() { this->init(&_b); } explicit basic_fstream(const std::string& p, ios_base::openmode m = ios_base::in | ios_base::out) { this->init(&_b); open(p, m); } void open(const std::string& p, ios_base::openmode m = ios_base::in | ios_base::out) { if (_b.open(p, m)) this->clear(); else this->setstate(ios_base::failbit); } bool is_open() const { return _b.is_open(); } void close() { if (!_b.close()) this->setstate(ios_base::failbit); } };
extern ostream cout, cerr, clog; extern istream cin;
// manipulators
struct _Sw { int n; }; inline _Sw setw(int n) { return {n}; } template <typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sw s) { o.width(s.n); return o; }
template <typename C> struct _Sf { C c; }; template <typename C> inline _Sf<C> setfill(C c) { return {c}; } template <typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sf<C> s) { o.fill(s.c); return o; }
struct _Sp { int n; }; inline _Sp setprecision(int n) { return {n}; } template <typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sp s) { o.precision(s.n); return o; }
struct _Sb { int n; }; inline _Sb setbase(int n) { return {n}; } template <typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sb s) { o.setf(s.n == 16 ? ios_base::hex : s.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
struct _Sif { ios_base::fmtflags f; }; inline _Sif setiosflags(ios_base::fmtflags f) { return {f}; } template <typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sif s) { o.setf(s.f); return o; }
struct _Pt { const tm* t; const char* f; }; inline _Pt put_time(const tm* t, const char* f) { return {t, f}; } template <typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Pt s) { char b[1024]; size_t n = strftime(b, sizeof b, s.f, s.t); return o._put(b, n); }
struct _Qt { std::string s; }; inline _Qt quoted(const std::string& s, char d = '"', char e = '\\') { std::string r(1, d); for (char c : s) { if (c == d || c == e) r += e; r += c; } r += d; return {r}; } template <typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const _Qt& s) { return o << s.s; }
}
#endif
