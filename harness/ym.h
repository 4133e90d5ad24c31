// yaml-cpp is outside of the verified code.  In the verifier run this parser of the part of YAML that the settings
// files and the code under contract use (block maps and sequences, flow sequences, plain, quoted and literal
// scalars, comments) stands for it; numbers may be the opaque words of vf_files.h.  The native replay uses the real
// library on the same texts.
#ifndef YM_H
#define YM_H
#include "vf_files.h"
#ifdef VF_NATIVE
#include <yaml-cpp/yaml.h>
#else
#define YAML_H_62B23520_7C8E_11DE_8A39_0800200C9A66
#include <map>
#include <utility>
namespace YAML {
enum { UNDEFINED, NUL, SCALAR, SEQ, MAP };
struct Datum { int kind = UNDEFINED; std::string text; std::vector<std::string> keys; std::vector<int> kids; };
const int NPOOL = 1000;
static Datum pool[NPOOL]; static int used = 1;      // 0: undefined
inline int fresh(int kind) { pool[used].kind = kind; return used++; }
struct Exception : std::exception { };
struct BadFile : Exception { };
template <class T> struct read_as;
class Node
    {
public:
    int i;
    explicit Node(int k) : i(k) {}
    Node() { i = fresh(NUL); }
    bool IsDefined() const { return pool[i].kind != UNDEFINED; }
    bool IsNull() const { return pool[i].kind == NUL; }
    bool IsScalar() const { return pool[i].kind == SCALAR; }
    bool IsSequence() const { return pool[i].kind == SEQ; }
    bool IsMap() const { return pool[i].kind == MAP; }
    explicit operator bool() const { return IsDefined(); }
    bool operator!() const { return !IsDefined(); }
    const std::string &Scalar() const { return pool[i].text; }
    size_t size() const { return pool[i].kids.size(); }
    Node operator[](const char *k) const { return (*this)[std::string(k)]; }
    Node operator[](const std::string &k) const
        {
        if (pool[i].kind == SCALAR) exit(2);                      // yaml-cpp throws
        for (size_t j = 0; j < pool[i].keys.size(); j++) if (pool[i].keys[j] == k) return Node(pool[i].kids[j]);
        return Node(0);
        }
    Node operator[](int k) const { return pool[i].kind == SEQ && k < int(pool[i].kids.size()) ? Node(pool[i].kids[k]) : Node(0); }
    template <class T> T as() const { T x; if (!read_as<T>::get(*this, x)) exit(2); return x; }
    template <class T, class F> T as(const F &other) const { T x; if (!IsDefined() || !read_as<T>::get(*this, x)) return T(other); return x; }
    struct item;
    struct iterator;
    typedef iterator const_iterator;
    inline iterator begin() const; inline iterator end() const;
    };
struct Node::item : Node { Node first, second; item(int a, int b, int c) : Node(a), first(b), second(c) {} };
struct Node::iterator
    {
    int i; size_t k;
    struct arrow { item it; item *operator->() { return &it; } };
    item at() const
        {
        if (pool[i].kind == SEQ) return item(pool[i].kids[k], 0, 0);
        const int n = fresh(SCALAR); pool[n].text = pool[i].keys[k];
        return item(0, n, pool[i].kids[k]);
        }
    arrow operator->() const { return arrow{at()}; }
    item operator*() const { return at(); }
    iterator &operator++() { k++; return *this; }
    iterator operator++(int) { iterator r = *this; k++; return r; }
    bool operator!=(const iterator &o) const { return k != o.k || i != o.i; }
    bool operator==(const iterator &o) const { return k == o.k && i == o.i; }
    };
inline Node::iterator Node::begin() const { return iterator{i, 0}; }
inline Node::iterator Node::end() const { return iterator{i, pool[i].kids.size()}; }
template <> struct read_as<std::string> { static bool get(const Node &n, std::string &x) { if (n.IsNull()) { x = "null"; return true; } if (!n.IsScalar()) return false; x = n.Scalar(); return true; } };
template <> struct read_as<double>
    {
    static bool get(const Node &n, double &x)
        {
        if (!n.IsScalar()) return false;
        const std::string &t = n.Scalar();
        if (t == ".nan" || t == ".NaN" || t == ".NAN") { x = NAN; return true; }
        if (t == ".inf") { x = INFINITY; return true; }
        if (t == "-.inf") { x = -INFINITY; return true; }
        return vff::number(t.c_str(), x, false) == t.size() && !t.empty();
        }
    };
template <> struct read_as<int>
    {
    static bool get(const Node &n, int &x)
        {
        if (!n.IsScalar()) return false;
        const std::string &t = n.Scalar();
        size_t p = 0; x = 0;
        const bool neg = !t.empty() && t[0] == '-';
        if (neg) p = 1;
        if (p == t.size()) return false;
        for (; p < t.size(); p++) { if (!vff::digit(t[p])) return false; x = 10*x + (t[p] - '0'); }
        if (neg) x = -x;
        return true;
        }
    };
template <> struct read_as<bool>
    {
    static bool get(const Node &n, bool &x)
        {
        if (!n.IsScalar()) return false;
        const std::string &t = n.Scalar();
        x = t == "true" || t == "yes" || t == "on" || t == "True" || t == "y";
        return x || t == "false" || t == "no" || t == "off" || t == "False" || t == "n";
        }
    };
// ---- parser
struct Parser
    {
    std::vector<std::string> line; size_t l = 0;
    static size_t indent(const std::string &s) { size_t n = 0; while (n < s.size() && s[n] == ' ') n++; return n; }
    static bool blank(const std::string &s) { const size_t n = indent(s); return n == s.size() || s[n] == '#'; }
    void skip() { while (l < line.size() && blank(line[l])) l++; }
    explicit Parser(const std::string &t)
        {
        std::string s;
        for (size_t i = 0; i < t.size(); i++) if (t[i] == '\n') { line.push_back(s); s.clear(); } else s += t[i];
        if (!s.empty()) line.push_back(s);
        }
    static int plain(const std::string &w)
        {
        if (w.empty() || w == "null" || w == "~") return fresh(NUL);
        const int n = fresh(SCALAR); pool[n].text = w; return n;
        }
    // one item of a line, from p; stop at a character of `stop`
    static int item(const std::string &s, size_t &p, bool flow)
        {
        while (p < s.size() && s[p] == ' ') p++;
        if (p < s.size() && s[p] == '[')
            {
            const int n = fresh(SEQ);
            p++;
            while (true)
                {
                while (p < s.size() && (s[p] == ' ' || s[p] == ',')) p++;
                if (p >= s.size()) exit(3);
                if (s[p] == ']') { p++; break; }
                const int k = item(s, p, true);
                pool[n].kids.push_back(k);
                }
            return n;
            }
        if (p < s.size() && (s[p] == '"' || s[p] == '\''))
            {
            const char q = s[p++];
            const int n = fresh(SCALAR); std::string w;
            while (true)
                {
                if (p >= s.size()) exit(3);
                if (s[p] == q) { if (q == '\'' && p + 1 < s.size() && s[p+1] == q) { w += q; p += 2; continue; } p++; break; }
                if (q == '"' && s[p] == '\\') { p++; if (p >= s.size()) exit(3); const char c = s[p++]; if (c == 'n') w += '\n'; else if (c == 't') w += '\t'; else if (c == '"' || c == '\\' || c == '/') w += c; else exit(3); continue; }
                w += s[p++];
                }
            pool[n].text = w;
            // nothing but a comment, or the rest of a flow sequence, may follow
            while (p < s.size() && s[p] == ' ') p++;
            if (p < s.size() && !(s[p] == '#' || (flow && (s[p] == ',' || s[p] == ']')))) exit(3);
            return n;
            }
        std::string w;
        while (p < s.size())
            {
            if (flow && (s[p] == ',' || s[p] == ']')) break;
            if (s[p] == '#' && (p == 0 || s[p-1] == ' ')) { p = s.size(); break; }
            w += s[p++];
            }
        while (!w.empty() && (w.back() == ' ' || w.back() == '\t')) w.pop_back();
        return plain(w);
        }
    // what follows the ':' of a key or the '-' of an item at column c
    int after(const std::string &s, size_t p, size_t c)
        {
        while (p < s.size() && s[p] == ' ') p++;
        if (p < s.size() && s[p] == '|')
            {
            l++;
            const int n = fresh(SCALAR); std::string w; size_t in = 0;
            while (l < line.size())
                {
                const size_t k = indent(line[l]);
                if (k == line[l].size()) { w += '\n'; l++; continue; }
                if (in == 0) { if (k <= c) break; in = k; }
                if (k < in) break;
                w += line[l].substr(in); w += '\n'; l++;
                }
            while (w.size() > 1 && w[w.size()-1] == '\n' && w[w.size()-2] == '\n') w.pop_back();
            pool[n].text = w;
            return n;
            }
        if (p >= s.size() || (s[p] == '#'))
            {
            l++; skip();
            if (l < line.size())
                {
                const size_t k = indent(line[l]);
                if (k > c || (k == c && line[l][k] == '-')) return block(k);
                }
            return fresh(NUL);
            }
        const int n = item(s, p, false);
        while (p < s.size() && s[p] == ' ') p++;
        if (p < s.size() && s[p] != '#') exit(3);
        l++;
        return n;
        }
    int block(size_t c)
        {
        if (line[l][c] == '-')
            {
            const int n = fresh(SEQ);
            while (true)
                {
                skip();
                if (l >= line.size() || indent(line[l]) != c || line[l][c] != '-') break;
                const std::string s = line[l];
                const int k = after(s, c + 1, c);
                pool[n].kids.push_back(k);
                }
            return n;
            }
        const int n = fresh(MAP);
        while (true)
            {
            skip();
            if (l >= line.size() || indent(line[l]) != c) { if (l < line.size() && indent(line[l]) > c) exit(3); break; }
            const std::string s = line[l];
            size_t p = c; std::string key;
            while (p < s.size() && !(s[p] == ':' && (p + 1 == s.size() || s[p+1] == ' '))) key += s[p++];
            if (p >= s.size()) exit(3);
            const int k = after(s, p + 1, c);
            pool[n].keys.push_back(key); pool[n].kids.push_back(k);
            }
        return n;
        }
    };
inline Node Load(const std::string &t) { Parser p(t); p.skip(); if (p.l >= p.line.size()) return Node(fresh(NUL)); const int n = p.block(Parser::indent(p.line[p.l])); p.skip(); if (p.l < p.line.size()) exit(3); return Node(n); }
inline Node Load(const char *t) { return Load(std::string(t)); }
inline Node Load(std::istream &) { return Node(fresh(NUL)); }
inline Node LoadFile(const std::string &n) { const int f = vff::find(n); if (f < 0) exit(2); return Load(vff::ftext[f]); }
}
#endif
#endif
