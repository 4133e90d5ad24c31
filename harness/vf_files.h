// Text files of the code under contract.  In the verifier run std::ofstream, std::ifstream and std::istringstream are
// replaced (mechanically, by this include before the project headers) by classes that keep real text, except that a
// number is one opaque word @k standing for the k-th value written: formatting and parsing are then inverse of each
// other, "nan" and "inf" are written as such, and operator>> refuses them as the standard requires.  The native
// replay uses the real streams and real files in the scratch directory of the check.
#ifndef VF_FILES_H
#define VF_FILES_H
#include <fstream>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <string>
#include <cmath>
#include <cstdlib>
#include <cctype>
#include <cstring>
#include <ctime>
#include <eigen3/Eigen/Dense>
#ifndef VF_NATIVE
namespace vff {
const int NV = 400;
static double val[NV]; static int vprec[NV]; static int nval = 0;
static std::string fname[6], ftext[6]; static int nfile = 0;
static bool unwritable = false;
inline int find(const std::string &n) { for (int i = 0; i < nfile; i++) if (fname[i] == n) return i; return -1; }
inline void append_int(std::string &o, long k)
    {
    if (k < 0) { o += '-'; k = -k; }
    char b[24]; int n = 0;
    do { b[n++] = char('0' + k%10); k /= 10; } while (k > 0);
    while (n > 0) o += b[--n];
    }
inline void append_num(std::string &o, double x, int prec)
    {
    if (std::isnan(x)) { o += "nan"; return; }
    if (std::isinf(x)) { o += x > 0 ? "inf" : "-inf"; return; }
    val[nval] = x; vprec[nval] = prec; o += '@'; append_int(o, nval); nval++;
    }
inline bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
// length of the number at p (0: none); value in x
inline size_t number(const char *p, double &x, bool special)
    {
    x = 0;
    size_t n = 0; bool neg = false;
    if (p[0] == '@') { long k = 0; n = 1; while (digit(p[n])) k = 10*k + (p[n++] - '0'); if (n == 1 || k >= nval) return 0; x = val[k]; return n; }
    if (p[0] == '-' || p[0] == '+') { neg = p[0] == '-'; n = 1; }
    if (special && p[n] == 'n' && p[n+1] == 'a' && p[n+2] == 'n') { x = NAN; return n + 3; }
    if (special && p[n] == 'i' && p[n+1] == 'n' && p[n+2] == 'f') { x = neg ? -INFINITY : INFINITY; return n + 3; }
    const size_t s = n; double f = 1;
    while (digit(p[n])) x = 10*x + (p[n++] - '0');
    if (p[n] == '.') { n++; while (digit(p[n])) { f /= 10; x += f*(p[n++] - '0'); } }
    if (n == s) { x = 0; return 0; }
    if ((p[n] == 'e' || p[n] == 'E') && (digit(p[n+1]) || ((p[n+1] == '-' || p[n+1] == '+') && digit(p[n+2]))))
        {
        const bool down = p[++n] == '-'; int e = 0;
        if (!digit(p[n])) n++;
        while (digit(p[n])) e = 10*e + (p[n++] - '0');
        for (; e > 0; e--) { if (down) x /= 10; else x *= 10; }
        }
    if (neg) x = -x;
    return n;
    }
}
extern "C" char *strerror(int) noexcept { static char b[] = "error"; return b; }
extern "C" struct tm *localtime(const time_t *) noexcept { static struct tm t; return &t; }
extern "C" size_t strftime(char *b, size_t, const char *, const struct tm *) noexcept { b[0] = 'd'; b[1] = 0; return 1; }
extern "C" double strtod(const char *s, char **end)
    {
    const char *p = s; double x = 0;
    while (vff::space(*p)) p++;
    const size_t n = vff::number(p, x, true);
    if (end) *end = const_cast<char *>(n ? p + n : s);
    return x;
    }
namespace vff {
class vf_ofstream
    {
public:
    static constexpr std::ios_base::openmode in = std::ios_base::in, out = std::ios_base::out, app = std::ios_base::app, trunc = std::ios_base::trunc;
    int f = -1, prec = 6; bool open_ = false;
    vf_ofstream() {}
    void open(const std::string &n)
        {
        if (vff::unwritable) return;
        f = vff::find(n);
        if (f < 0) { f = vff::nfile++; vff::fname[f] = n; }
        vff::ftext[f].clear(); open_ = true;
        }
    explicit vf_ofstream(const std::string &n) { open(n); }
    vf_ofstream(const std::string &n, std::ios_base::openmode) { open(n); }
    bool fail() const { return f < 0; }
    bool good() const { return f >= 0; }
    bool is_open() const { return open_; }
    operator bool() const { return f >= 0; }
    bool operator!() const { return f < 0; }
    int precision(int p) { int o = prec; prec = p; return o; }
    int precision() const { return prec; }
    vf_ofstream &flush() { return *this; }
    void close() { open_ = false; }
    bool own = false; std::string buf;      // std::ostringstream
    std::string &text() { return own ? buf : vff::ftext[f]; }
    };
class vf_ostringstream : public vf_ofstream
    {
public:
    vf_ostringstream() { own = open_ = true; f = 0; }
    const std::string &str() const { return buf; }
    void str(const std::string &s) { buf = s; }
    };
inline vf_ofstream &operator<<(vf_ofstream &o, const std::string &s) { if (o.open_) o.text() += s; return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, const char *s) { if (o.open_) o.text() += s; return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, char c) { if (o.open_) o.text() += c; return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, int k) { if (o.open_) vff::append_int(o.text(), k); return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, unsigned k) { if (o.open_) vff::append_int(o.text(), k); return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, long k) { if (o.open_) vff::append_int(o.text(), k); return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, unsigned long k) { if (o.open_) vff::append_int(o.text(), long(k)); return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, double x) { if (o.open_) vff::append_num(o.text(), x, o.prec); return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, std::ostream &(*m)(std::ostream &)) { if (m == static_cast<std::ostream &(*)(std::ostream &)>(std::endl)) o << '\n'; return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, std::ios_base &(*)(std::ios_base &)) { return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, decltype(std::setprecision(1)) p) { o.prec = p._M_n; return o; }
template <class D> vf_ofstream &operator<<(vf_ofstream &o, const Eigen::WithFormat<D> &w)
    {
    const Eigen::IOFormat &q = w.m_format;
    const int p = q.precision == Eigen::StreamPrecision ? o.prec : q.precision;
    std::string t = q.matPrefix;
    for (int i = 0; i < w.m_matrix.rows(); i++)
        {
        if (i) t += q.rowSpacer;
        t += q.rowPrefix;
        for (int j = 0; j < w.m_matrix.cols(); j++) { if (j) t += q.coeffSeparator; vff::append_num(t, w.m_matrix(i, j), p); }
        t += q.rowSuffix;
        if (i < w.m_matrix.rows() - 1) t += q.rowSeparator;
        }
    t += q.matSuffix;
    return o << t;
    }
template <class D> vf_ofstream &operator<<(vf_ofstream &o, const Eigen::DenseBase<D> &m)
    {
    for (int i = 0; i < m.rows(); i++) { if (i) o << '\n'; for (int j = 0; j < m.cols(); j++) { if (j) o << ' '; o << double(m(i, j)); } }
    return o;
    }
class vf_istream
    {
public:
    static constexpr std::ios_base::openmode in = std::ios_base::in, out = std::ios_base::out, app = std::ios_base::app, trunc = std::ios_base::trunc;
    std::string t; size_t pos = 0; bool bad = false, end = false;
    bool fail() const { return bad; }
    bool eof() const { return end; }
    bool good() const { return !bad && !end; }
    operator bool() const { return !bad; }
    bool operator!() const { return bad; }
    void clear() { bad = end = false; }
    int peek() { if (bad || end) { return -1; } if (pos >= t.size()) { end = true; return -1; } return (unsigned char)t[pos]; }
    int get() { if (bad || end || pos >= t.size()) { bad = end = true; return -1; } return (unsigned char)t[pos++]; }
    bool skip()         // leading white space; false (and failed) at the end of the text
        {
        if (bad || end) { bad = true; return false; }
        while (pos < t.size() && vff::space(t[pos])) pos++;
        if (pos >= t.size()) { bad = end = true; return false; }
        return true;
        }
    void num(double &x)
        {
        if (!skip()) return;
        const size_t n = vff::number(t.c_str() + pos, x, false);
        pos += n;
        if (n == 0) bad = true;
        if (pos >= t.size()) end = true;
        }
    template <class I> void whole(I &k)
        {
        if (!skip()) return;
        bool neg = false; size_t n = pos; long r = 0;
        if (t[n] == '-' || t[n] == '+') { neg = t[n] == '-'; n++; }
        const size_t s = n;
        while (n < t.size() && vff::digit(t[n])) r = 10*r + (t[n++] - '0');
        if (n == s) { bad = true; k = 0; return; }
        pos = n; k = I(neg ? -r : r);
        if (pos >= t.size()) end = true;
        }
    void word(std::string &w)
        {
        if (!skip()) return;
        w.clear();
        while (pos < t.size() && !vff::space(t[pos])) w += t[pos++];
        if (pos >= t.size()) end = true;
        }
    };
class vf_ifstream : public vf_istream
    {
public:
    bool open_ = false;
    vf_ifstream() {}
    void open(const std::string &n) { const int f = vff::find(n); if (f < 0) bad = true; else { t = vff::ftext[f]; open_ = true; } }
    explicit vf_ifstream(const std::string &n) { open(n); }
    vf_ifstream(const std::string &n, std::ios_base::openmode) { open(n); }
    bool is_open() const { return open_; }
    void close() { open_ = false; }
    };
class vf_istringstream : public vf_istream
    {
public:
    vf_istringstream() {}
    explicit vf_istringstream(const std::string &s) { t = s; }
    void str(const std::string &s) { t = s; pos = 0; }
    };
inline vf_istream &operator>>(vf_istream &i, double &x) { i.num(x); return i; }
inline vf_istream &operator>>(vf_istream &i, unsigned &k) { i.whole(k); return i; }
inline vf_istream &operator>>(vf_istream &i, int &k) { i.whole(k); return i; }
inline vf_istream &operator>>(vf_istream &i, unsigned long &k) { i.whole(k); return i; }
inline vf_istream &operator>>(vf_istream &i, long &k) { i.whole(k); return i; }
inline vf_istream &operator>>(vf_istream &i, std::string &w) { i.word(w); return i; }
inline vf_istream &operator>>(vf_istream &i, std::istream &(*)(std::istream &)) { while (i.pos < i.t.size() && vff::space(i.t[i.pos])) i.pos++; if (i.pos >= i.t.size()) i.end = true; return i; }     // std::ws
inline vf_istream &getline(vf_istream &i, std::string &s)
    {
    s.clear();
    if (i.bad || i.end) { i.bad = true; return i; }
    if (i.pos >= i.t.size()) { i.bad = i.end = true; return i; }
    while (i.pos < i.t.size()) { const char c = i.t[i.pos++]; if (c == '\n') return i; s += c; }
    i.end = true;
    return i;
    }
}
namespace std { using vff::vf_ofstream; using vff::vf_ifstream; using vff::vf_istringstream; using vff::vf_ostringstream; using vff::getline; }
#define ofstream vf_ofstream
#define ifstream vf_ifstream
#define istringstream vf_istringstream
#define ostringstream vf_ostringstream
#endif
#endif
