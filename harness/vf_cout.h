// standard output of the file included next, as text (verifier run); see vf_files.h
#include "vf_files.h"
#ifndef VF_NATIVE
namespace vff {
static vf_ofstream vf_cout;
inline void argument(std::string &o, char c, double x) { append_num(o, x, 6); }
inline void argument(std::string &o, char c, int x) { append_int(o, x); }
inline void argument(std::string &o, char c, unsigned x) { append_int(o, x); }
inline void argument(std::string &o, char c, long x) { append_int(o, x); }
inline void argument(std::string &o, char c, const char *x) { o += x; }
inline void formatted(std::string &o, const char *f) { for (; *f; f++) { if (*f == '%' && f[1] == '%') f++; o += *f; } }
template <class A, class... R> void formatted(std::string &o, const char *f, A a, R... r)
    {
    for (; *f; f++)
        {
        if (*f != '%') { o += *f; continue; }
        f++;
        if (*f == '%') { o += '%'; continue; }
        while (*f && !(*f >= 'a' && *f <= 'z') && !(*f >= 'A' && *f <= 'Z')) f++;
        while (*f == 'l' || *f == 'z') f++;
        argument(o, *f, a);
        return formatted(o, f + 1, r...);
        }
    }
template <class... A> int vf_sprintf(char *b, const char *f, A... a) { std::string t; formatted(t, f, a...); for (size_t i = 0; i <= t.size(); i++) b[i] = t.c_str()[i]; return int(t.size()); }
template <class... A> int vf_snprintf(char *b, size_t n, const char *f, A... a) { std::string t; formatted(t, f, a...); for (size_t i = 0; i <= t.size() && i < n; i++) b[i] = i + 1 < n ? t.c_str()[i] : 0; return int(t.size()); }
}
namespace std { using vff::vf_cout; using vff::vf_sprintf; using vff::vf_snprintf; }
using vff::vf_sprintf; using vff::vf_snprintf;
#define cout vf_cout
#define sprintf vf_sprintf
#define snprintf vf_snprintf
#endif
