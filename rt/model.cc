// The parts of libstdc++ / libc that are not in headers, as ordinary C++ so
// that the symbolic executor runs them like the code under test.  Number
// formatting is represented by tokens (see token.h).
#include "prelude.h"

#include <chrono>
#include <exception>
#include <future>
#include <iostream>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <functional>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <thread>
#include <unordered_map>
#include <vector>
#include <cstdlib>
#include <cstring>

#include "token.h"
#include "vp.h"

namespace std {
namespace __detail {
static const size_t vp_primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 67, 79, 97, 127, 167, 227, 307, 409, 541, 719, 953, 1259};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  if (n == 0) return 1;
  for (size_t p : vp_primes) if (p >= n) { _M_next_resize = (size_t)__builtin_floor(p * (double)_M_max_load_factor); return p; }
  _M_next_resize = (size_t)-1; return 1259;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    double min_bkts = max<size_t>(n_elt + n_ins, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
    if (min_bkts >= n_bkt) return {true, _M_next_bkt(max<size_t>((size_t)__builtin_floor(min_bkts) + 1, n_bkt * _S_growth_factor))};
    _M_next_resize = (size_t)__builtin_floor(n_bkt * (double)_M_max_load_factor);
    return {false, 0};
  }
  return {false, 0};
}
}  // namespace __detail

// ------------------------------------------------------------------ exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char* vp_dup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)vp_xalloc(n); memcpy(p, s, n); return p; }
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string& s) : _M_p(vp_dup(s.c_str())) {}
__cow_string::__cow_string(const char* s, size_t) : _M_p(vp_dup(s)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define VP_EXC_BASE(T)                                                   \
  T::T(const std::string& s) : _M_msg(s) {}                              \
  T::T(const char* s) : _M_msg(s, 0) {}                                  \
  T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {}          \
  T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {}               \
  T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } \
  T::~T() noexcept {}                                                    \
  const char* T::what() const noexcept { return _M_msg._M_p; }
VP_EXC_BASE(logic_error)
VP_EXC_BASE(runtime_error)
#define VP_EXC(T, B) \
  T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
VP_EXC(invalid_argument, logic_error)
VP_EXC(domain_error, logic_error)
VP_EXC(length_error, logic_error)
VP_EXC(out_of_range, logic_error)
VP_EXC(range_error, runtime_error)
VP_EXC(overflow_error, runtime_error)
VP_EXC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future_error"; }

inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int, const error_condition&) const noexcept { return false; }
bool error_category::equivalent(const error_code&, int) const noexcept { return false; }
// the out-of-line virtual slots of both string ABIs
__cow_string error_category::_M_message(int) const { return __cow_string("", 0); }
}  // namespace _V2
struct vp_category final : error_category {
  const char* name() const noexcept override { return "category"; }
  string message(int) const override { return "error"; }
};
static vp_category& vp_cat() { static vp_category* c = nullptr; if (!c) { c = new (vp_xalloc(sizeof(vp_category))) vp_category(); } return *c; }
inline namespace _V2 {
const error_category& generic_category() noexcept { return vp_cat(); }
const error_category& system_category() noexcept { return vp_cat(); }
}  // namespace _V2
const error_category& future_category() noexcept { return vp_cat(); }

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error(static_cast<future_errc>(e)); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }

// ------------------------------------------------------------------ threads, futures
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
thread::_State::~_State() = default;
extern "C" { static void* vp_thread_main(void* p) { unique_ptr<thread::_State> st(static_cast<thread::_State*>(p)); st->_M_run(); return nullptr; } }
void thread::_M_start_thread(_State_ptr st, void (*)()) {
  int t = vp_spawn(vp_thread_main, st.release());
  _M_id = id((native_handle_type)(t + 1));
}
void thread::join() {
  if (!joinable()) __throw_system_error(22);
  vp_join((int)_M_id._M_thread - 1);
  _M_id = id();
}
void thread::detach() { if (!joinable()) __throw_system_error(22); _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { return 4; }
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }

// ------------------------------------------------------------------ locales and streams
static char vp_loc_classic[8], vp_loc_foreign[8];
static locale::_Impl* vp_global_loc() { return (locale::_Impl*)(void*)vp_loc_classic; }
static void* vp_cur_loc = nullptr;
template <class T> struct vp_locpeek;
locale::locale() noexcept : _M_impl(vp_cur_loc ? (_Impl*)vp_cur_loc : vp_global_loc()) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale& o) noexcept { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const noexcept { return _M_impl == o._M_impl; }
static const void* const vp_classic_rep = vp_loc_classic;
const locale& locale::classic() { return *(const locale*)(const void*)&vp_classic_rep; }
locale locale::global(const locale& l) { locale old; vp_cur_loc = *(void* const*)&l; return old; }
string locale::name() const { return (void*)_M_impl == (void*)vp_loc_classic ? "C" : "xx_XX"; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
ios_base::ios_base() noexcept
    : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(),
      _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept {
  _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale();
}
locale ios_base::imbue(const locale& l) noexcept { locale old = _M_ios_locale; _M_ios_locale = l; return old; }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
template <> void basic_ios<char>::_M_cache_locale(const locale&) { _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; }
template <> locale basic_ios<char>::imbue(const locale& l) { locale old(this->getloc()); ios_base::imbue(l); if (rdbuf()) rdbuf()->pubimbue(l); return old; }
template <> void basic_ios<char>::init(basic_streambuf<char>* sb) {
  ios_base::_M_init(); _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr;
  _M_fill = ' '; _M_fill_init = true; _M_tie = 0; _M_exception = goodbit; _M_streambuf = sb; _M_streambuf_state = sb ? goodbit : badbit;
}
template <> char basic_ios<char>::fill() const { return _M_fill; }
template <> char basic_ios<char>::fill(char c) { char o = _M_fill; _M_fill = c; return o; }

static void vp_put_token(ostream& os, char type, uint64_t bits, ios_base::fmtflags relevant, bool fp) {
  ostream::sentry ok(os);
  if (!ok) return;
  unsigned char t[VP_TOKEN_LEN];
  t[0] = VP_TOKEN_MARK; t[1] = (unsigned char)type;
  for (int i = 0; i < 8; i++) t[2 + i] = (unsigned char)(bits >> (8 * i));
  // only settings that change the text: without a base it is decimal; the base
  // prefix and the letter case do not show in decimal integers
  uint32_t fl = (uint32_t)(os.flags() & relevant);
  if (type == 'l' || type == 'u') {
    uint32_t bf = fl & (uint32_t)ios_base::basefield;
    int other = (bf == (uint32_t)ios_base::hex) | (bf == (uint32_t)ios_base::oct);
    fl = (uint32_t)vp_ite64(other, fl, (fl & (uint32_t)(type == 'l' ? ios_base::showpos : ios_base::fmtflags(0))) | (uint32_t)ios_base::dec);
  }
  for (int i = 0; i < 4; i++) t[10 + i] = (unsigned char)(fl >> (8 * i));
  t[14] = fp ? (unsigned char)os.precision() : 0;
  t[15] = (unsigned char)os.width();
  t[16] = (unsigned char)vp_ite64(os.width() != 0, (unsigned char)os.fill(), ' ');
  t[17] = os.getloc() == locale::classic() ? 0 : 1;
  os.rdbuf()->sputn((const char*)t, VP_TOKEN_LEN);
  os.width(0);
}
static const ios_base::fmtflags vp_int_flags = ios_base::basefield | ios_base::showbase | ios_base::showpos | ios_base::uppercase;
static const ios_base::fmtflags vp_fp_flags = ios_base::floatfield | ios_base::showpoint | ios_base::showpos | ios_base::uppercase;
template <> template <> ostream& ostream::_M_insert(double v) { vp_put_token(*this, 'd', vp::double_to_bits(v), vp_fp_flags, true); return *this; }
template <> template <> ostream& ostream::_M_insert(long double v) { vp_put_token(*this, 'd', vp::double_to_bits((double)v), vp_fp_flags, true); return *this; }
template <> template <> ostream& ostream::_M_insert(long v) { vp_put_token(*this, 'l', (uint64_t)v, vp_int_flags, false); return *this; }
template <> template <> ostream& ostream::_M_insert(unsigned long v) { vp_put_token(*this, 'u', (uint64_t)v, vp_int_flags, false); return *this; }
template <> template <> ostream& ostream::_M_insert(long long v) { vp_put_token(*this, 'l', (uint64_t)v, vp_int_flags, false); return *this; }
template <> template <> ostream& ostream::_M_insert(unsigned long long v) { vp_put_token(*this, 'u', (uint64_t)v, vp_int_flags, false); return *this; }
template <> template <> ostream& ostream::_M_insert(bool v) { vp_put_token(*this, 'b', (uint64_t)v, vp_int_flags | ios_base::boolalpha, false); return *this; }
template <> template <> ostream& ostream::_M_insert(const void* v) { vp_put_token(*this, 'p', (uint64_t)v, vp_int_flags, false); return *this; }

template class basic_string<char>;
template string operator+(const char*, const string&);
template class basic_streambuf<char>;
template <> istream& getline(istream& in, string& s, char delim) {
  istream::sentry ok(in, true);
  ios_base::iostate e = ios_base::goodbit; bool got = false;
  if (ok) {
    s.erase();
    for (;;) {
      int c = in.rdbuf()->sbumpc();
      if (c == -1) { e |= ios_base::eofbit; break; }
      got = true;
      if ((char)c == delim) break;
      s.push_back((char)c);
    }
  }
  if (!got) e |= ios_base::failbit;
  if (e) in.setstate(e);
  return in;
}
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, const string&);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template ostream& endl(ostream&);
template ostream& ends(ostream&);
template ostream& flush(ostream&);
}  // namespace std

namespace vp {
std::locale foreign_locale() { std::locale l(std::locale::classic()); *(void**)&l = std::vp_loc_foreign; return l; }
}
