// an input stream over a given text, for the library's operator>>
#pragma once
#include <istream>
template <class C> struct mock_traits : std::char_traits<char> { using char_type = C; using int_type = int; };
// a byte is read as signed, so that the stream is not the one of the standard library
template <class C> class std::basic_istream<C, mock_traits<C>>
{
public:
    using char_type = C;
    using int_type = int;
    using traits_type = mock_traits<C>;
    using text_type = std::conditional_t<sizeof(C) == 1, char, C>;
    struct sentry { sentry(basic_istream&, bool = false) {} explicit operator bool() const { return true; } };
    const text_type* s;
    int len, pos = 0;
    bool end = false, failed = false;
    basic_istream(const text_type* p, int n) : s(p), len(n) {}
    int peek() { if(pos < len) return (int)(std::make_unsigned_t<C>)s[pos]; end = true; return -1; }
    int get() { if(pos < len) return (int)(std::make_unsigned_t<C>)s[pos++]; end = true; failed = true; return -1; }
    bool eof() const { return end; }
    bool fail() const { return failed; }
    bool good() const { return !end && !failed; }
    explicit operator bool() const { return !failed; }
    bool operator!() const { return failed; }
    void setstate(std::ios_base::iostate st) { if(st & std::ios_base::failbit) failed = true; if(st & std::ios_base::eofbit) end = true; }
    void clear() { end = failed = false; }
    basic_istream& ignore() { get(); return *this; }
    basic_istream& unget() { if(pos > 0) --pos; end = false; return *this; }
    std::ios_base::fmtflags flags() const { return std::ios_base::dec | std::ios_base::skipws; }
    std::ios_base::iostate rdstate() const { return (end ? std::ios_base::eofbit : std::ios_base::goodbit) | (failed ? std::ios_base::failbit : std::ios_base::goodbit); }
};
using mock_in = std::basic_istream<signed char, mock_traits<signed char>>;
using mock_win = std::basic_istream<wchar_t, mock_traits<wchar_t>>;
// defined for the values of unsigned char (and, in glibc, of signed char) and EOF only
extern "C" int sa_model_isdigit(int c) { CHECK(c >= -128 && c <= 255); return c >= '0' && c <= '9'; }
