// Replayer for Strings.tla (C11).
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/string.h>
using vf::Args; using jnivm::ENV; using jnivm::String; using jnivm::Object;
int vf_op_timeout = 20;
static std::vector<long long> nums(const std::string& s) {
    std::vector<long long> r; if (s == "-") return r;
    std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) r.push_back(std::stoll(t));
    return r;
}
struct StrWorld : vf::World {
    jnivm::VM vm; ENV* env; JNIEnv* j; std::vector<jchar> cur; unsigned tick = 0;
    StrWorld() : env(vm.GetEnv().get()), j(env->GetJNIEnv()) {}
    struct Ref { JNIEnv* j; jobject l, h; int k; Ref(JNIEnv* j, jobject l, int k) : j(j), l(l), k(k) { h = k == 1 ? j->NewGlobalRef(l) : k == 2 ? j->NewWeakGlobalRef(l) : l; }
        ~Ref() { if (k == 1) j->DeleteGlobalRef(h); else if (k == 2) j->DeleteWeakGlobalRef((jweak)h); } operator jstring() { return (jstring)h; } };
    jstring mk(const std::vector<jchar>& u) { // the units lie in memory of exactly their size
        std::unique_ptr<jchar[]> p(new jchar[u.size()]); std::copy(u.begin(), u.end(), p.get());
        return j->NewString(p.get(), (jsize)u.size());
    }
    static std::vector<long long> ub(const char* p, size_t n) { std::vector<long long> r; for (size_t i = 0; i < n; ++i) r.push_back((unsigned char)p[i]); return r; }
    std::string region(jstring s, jsize i, jsize n, size_t bytes) {
        std::unique_ptr<jchar[]> b(new jchar[n]); for (jsize k = 0; k < n; ++k) b[k] = 0x5a5a;
        j->GetStringRegion(s, i, n, b.get());
        std::vector<long long> u(b.get(), b.get() + n);
        // the number of bytes is known from the other functions: the buffer is that plus the terminator
        std::unique_ptr<char[]> c(new char[bytes + 1]); memset(c.get(), 0x5a, bytes + 1);
        j->GetStringUTFRegion(s, i, n, c.get());
        auto v = ub(c.get(), bytes); if (c[bytes] != 0) v.push_back(-1);
        return "[" + vf::iarr(u) + "," + vf::iarr(v) + "]";
    }
    static size_t ulen(jchar c) { return c && c < 0x80 ? 1 : c < 0x800 ? 2 : 3; }
    std::string all(jstring l) {
        vf::Obj o;
        Ref s(j, l, ++tick % 3);
        jsize n = j->GetStringLength(s), m = j->GetStringUTFLength(s);
        o.i("len", n).i("utflen", m);
        jboolean cp = 77;
        const char* p = j->GetStringUTFChars(s, tick & 4 ? &cp : nullptr);
        auto utf = ub(p, m); if (p[m]) utf.push_back(-1);
        auto native = jnivm::JNITypes<std::shared_ptr<String>>::JNICast(env, (jobject)s)->asStdString();
        if (ub(native.data(), native.size()) != utf) utf.push_back(-2);
        o.raw("utf", vf::iarr(utf));
        j->ReleaseStringUTFChars(s, p);
        const jchar* c = j->GetStringChars(s, tick & 4 ? nullptr : &cp);
        std::vector<long long> u(c, c + n); j->ReleaseStringChars(s, c);
        const jchar* d = j->GetStringCritical(s, nullptr);
        if (u != std::vector<long long>(d, d + n)) u.push_back(-1);
        j->ReleaseStringCritical(s, d);
        o.raw("chars", vf::iarr(u));
        std::string r = "[";
        for (jsize i = 0; i <= n; ++i) for (jsize k = 0; k <= n - i; ++k) {
            size_t b = 0; for (jsize x = i; x < i + k; ++x) b += ulen((jchar)u[x]);
            r += (r.size() > 1 ? "," : "") + region(s, i, k, b);
        }
        return o.raw("regions", r + "]").end();
    }
    std::string op(const std::string& n, const Args& a) override {
        j->PushLocalFrame(8);
        std::string r = op2(n, a);
        j->PopLocalFrame(nullptr);
        return r;
    }
    std::string op2(const std::string& n, const Args& a) {
        if (n == "units") { std::vector<jchar> u; for (auto x : nums(a[0])) u.push_back((jchar)x); return all(mk(u)); }
        if (n == "utf") {
            auto v = nums(a[0]); std::unique_ptr<char[]> p(new char[v.size() + 1]); for (size_t i = 0; i < v.size(); ++i) p[i] = (char)v[i]; p[v.size()] = 0;
            return all(j->NewStringUTF(p.get()));
        }
        if (n == "null") { // both kinds of characters of no string: empty and terminated
            auto u = j->GetStringUTFChars(nullptr, nullptr); auto c = j->GetStringChars(nullptr, nullptr), d = j->GetStringCritical(nullptr, nullptr);
            auto r = vf::Obj().i("len", j->GetStringLength(nullptr)).i("utflen", j->GetStringUTFLength(nullptr)).raw("utf", vf::iarr(ub(u, strlen(u)))).raw("end", "[" + std::to_string(c[0]) + "," + std::to_string(d[0]) + "]").end();
            j->ReleaseStringUTFChars(nullptr, u); j->ReleaseStringChars(nullptr, c); j->ReleaseStringCritical(nullptr, d);
            return r;
        }
        if (n == "block") {
            std::string s = "["; int b = std::stoi(a[0]);
            std::vector<jchar> whole;
            for (int i = 0; i < 256; ++i) {
                jchar c = (jchar)(b * 256 + i);
                jstring l = mk({c}); whole.push_back(c);
                auto m = j->GetStringUTFLength(l); auto v = ub(j->GetStringUTFChars(l, nullptr), m);
                jchar back = 0; j->GetStringRegion(l, 0, 1, &back);
                if (back != c || j->GetStringLength(l) != 1) v.push_back(-1);
                s += (i ? "," : "") + vf::iarr(v);
                j->DeleteLocalRef(l);
            }
            jstring l = mk(whole); std::vector<jchar> back(256); if (j->GetStringLength(l) != 256) return "\"length\"";
            j->GetStringRegion(l, 0, 256, back.data()); if (back != whole) return "\"whole\"";
            return s + "]";
        }
        if (n == "reset") { cur.clear(); return "0"; }
        if (n == "grow") cur.push_back((jchar)std::stoi(a[0]));
        Ref s(j, mk(cur), ++tick % 3);
        if (n == "grow") return vf::Obj().i("len", j->GetStringLength(s)).i("utflen", j->GetStringUTFLength(s)).end();
        jsize i = n == "whole" ? 0 : std::stoi(a[0]), k = n == "whole" ? (jsize)cur.size() : std::stoi(a[1]);
        size_t b = 0; for (jsize x = i; x < i + k; ++x) b += ulen(cur[x]);
        return region(s, i, k, b);
    }
};
vf::World* vf_make_world() { return new StrWorld; }
std::string vf_fini() { return vf::Obj().end(); }
