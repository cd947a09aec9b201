// Replayer support: reads a script of operations, executes them on the real library
// through its public interface and writes one JSON observation per operation.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

namespace vf {
using Args = std::vector<std::string>;

inline std::string q(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
struct J { // JSON value builder
    std::string s;
    static J of(long long v) { return J{std::to_string(v)}; }
    static J b(bool v) { return J{v ? "true" : "false"}; }
    static J str(const std::string& v) { return J{q(v)}; }
};
struct Obj {
    std::string s = "{"; bool first = true;
    Obj& raw(const std::string& k, const std::string& v) { if (!first) s += ","; first = false; s += q(k) + ":" + v; return *this; }
    Obj& i(const std::string& k, long long v) { return raw(k, std::to_string(v)); }
    Obj& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    Obj& t(const std::string& k, const std::string& v) { return raw(k, q(v)); }
    std::string end() const { return s + "}"; }
};
template<class C, class F> std::string arr(const C& c, F f) {
    std::string s = "["; bool first = true;
    for (auto& x : c) { if (!first) s += ","; first = false; s += f(x); }
    return s + "]";
}
inline std::string iarr(const std::vector<long long>& v) { return arr(v, [](long long x) { return std::to_string(x); }); }
inline std::string sarr(const std::vector<std::string>& v) { return arr(v, [](const std::string& x) { return q(x); }); }

struct World {
    virtual ~World() {}
    // executes one operation and returns its observation as JSON
    virtual std::string op(const std::string& name, const Args& a) = 0;
};
} // namespace vf

vf::World* vf_make_world();          // defined by each module
std::string vf_fini();               // observation after the world was destroyed
extern int vf_op_timeout;            // seconds

#ifndef VF_NO_MAIN
#include "vf_main.h"
#endif
