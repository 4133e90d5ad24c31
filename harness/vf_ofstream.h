// output files of the code under contract go nowhere: std::ofstream is replaced (mechanically, by this include before
// the project headers) by a class that records whether the file is open
#ifndef VF_OFSTREAM_H
#define VF_OFSTREAM_H
#include <fstream>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <string>
namespace std {
class vf_ofstream
    {
public:
    bool open_ = true;
    vf_ofstream() {}
    template <class T> explicit vf_ofstream(const T &) {}
    template <class T> explicit vf_ofstream(const T &, std::ios_base::openmode) {}
    bool fail() const { return !open_; }
    bool good() const { return open_; }
    bool is_open() const { return open_; }
    operator bool() const { return open_; }
    bool operator!() const { return !open_; }
    template <class T> int precision(T) { return 0; }
    template <class T> void open(const T &) { open_ = true; }
    vf_ofstream &flush() { return *this; }
    void close() { open_ = false; }
    };
template <class T> vf_ofstream &operator<<(vf_ofstream &o, const T &) { return o; }
inline vf_ofstream &operator<<(vf_ofstream &o, std::ostream &(*)(std::ostream &)) { return o; }
}
#define ofstream vf_ofstream
#endif
