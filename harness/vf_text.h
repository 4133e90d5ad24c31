// texts of the harnesses on files: see vf_files.h
#ifndef VF_TEXT_H
#define VF_TEXT_H
#include "vf_files.h"
#include <unistd.h>
namespace {
const int PREC = 9;
std::string file(const char *n)
    {
#ifdef VF_NATIVE
    return "vf_" + std::to_string(getpid()) + "_" + n;
#else
    return n;
#endif
    }
void drop(const std::string &n)
    {
#ifdef VF_NATIVE
    unlink(n.c_str());
#endif
    }
void text(std::string &o, double x)
    {
#ifdef VF_NATIVE
    char b[64]; snprintf(b, sizeof b, "%.16e", x); o += b;
#else
    vff::append_num(o, x, 17);
#endif
    }
void put(const std::string &n, const std::string &t)
    {
#ifdef VF_NATIVE
    FILE *f = fopen(n.c_str(), "w"); fputs(t.c_str(), f); fclose(f);
#else
    int k = vff::find(n); if (k < 0) { k = vff::nfile++; vff::fname[k] = n; }
    vff::ftext[k] = t;
#endif
    }
std::string content(const std::string &n)
    {
#ifdef VF_NATIVE
    std::string t; if (FILE *f = fopen(n.c_str(), "r")) { int c; while ((c = fgetc(f)) != EOF) t += char(c); fclose(f); } return t;
#else
    const int k = vff::find(n); return k < 0 ? std::string() : vff::ftext[k];
#endif
    }
#ifdef VF_NATIVE
bool close(double a, double b) { return (a != a && b != b) || std::fabs(a - b) <= 0.51*std::pow(10., -PREC)*std::pow(10., std::floor(std::log10(std::fabs(b) + 1e-300))) + 1e-300; }
#else
bool close(double a, double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return a == b; }
#endif
// word w of line l (after the header lines, which start with #); empty if there is none
std::string word(const std::string &t, int l, int w)
    {
    size_t p = 0;
    while (p < t.size() && t[p] == '#') { while (p < t.size() && t[p] != '\n') p++; p++; }
    for (int i = 0; i < l; i++) { while (p < t.size() && t[p] != '\n') p++; p++; }
    std::string r;
    for (int i = 0; p < t.size() && t[p] != '\n'; )
        {
        while (p < t.size() && (t[p] == ' ' || t[p] == '\t')) p++;
        r.clear();
        while (p < t.size() && t[p] != ' ' && t[p] != '\t' && t[p] != '\n') r += t[p++];
        if (i++ == w) return r;
        }
    return "";
    }
double value(const std::string &w)
    {
#ifdef VF_NATIVE
    return strtod(w.c_str(), nullptr);
#else
    double x; vff::number(w.c_str(), x, true); return x;
#endif
    }
#ifndef VF_NATIVE
void precise(const std::string &w) { if (w[0] == '@') { long k = 0; for (size_t i = 1; i < w.size(); i++) k = 10*k + (w[i] - '0'); ENSURES("numbers are written with the precision asked for", vff::vprec[k] == PREC); } }
#else
void precise(const std::string &) {}
#endif
}
#endif
