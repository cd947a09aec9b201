// Replayer for Calls.tla (C08): every signature is a template instance, every way of calling a function of it.
#pragma once
#define VF_NO_MAIN
#include "vf.h"
#include "workers.h"
#include <cstdarg>
#include <set>
#include <jnivm.h>
#include <fake-jni/fake-jni.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/method.h>
#include <jnivm/extends.h>
using jnivm::ENV; using jnivm::Object; using jnivm::Extends; using jnivm::JNITypes; using jnivm::Class; using jnivm::String;
using vf::Args;
template<class T> using SP = std::shared_ptr<T>;
using IntArray = jnivm::Array<jint>;
using StrArray = jnivm::Array<String>; using IntMatrix = jnivm::Array<IntArray>;

struct Recv : Extends<Object> {};
struct Made : Extends<Object> {};

struct State {
    SP<Object> a, b; SP<IntArray> x, y; SP<String> s, t; SP<StrArray> q, u; SP<IntMatrix> m, k;     // the objects behind the value names
    jobject ga, gb; jweak wa, wb;                              // references of other kinds
    int n; std::vector<std::string> args; void* recv; void* env; std::string ret;
    SP<Object> made;
    unsigned tick = 0;
};
extern State st;

// ---- values and their names
static std::string hex(uint64_t v, int d) { char b[20]; snprintf(b, sizeof b, "%0*llx", d, (unsigned long long)v); return b; }
template<class T> struct K;   // kind of a native parameter type: name of a value, value of a name, JNI type, conversion
#define NUM(T, LET) template<> struct K<T> { using JT = T; \
    static std::string name(T v) { return std::to_string((long long)v); } \
    static T val(const std::string& s) { return (T)std::stoll(s); } \
    static void set(jvalue& j, T v) { j.LET = v; } static JT jni(ENV*, T v) { return v; } };
NUM(jboolean, z) NUM(jbyte, b) NUM(jchar, c) NUM(jshort, s) NUM(jint, i) NUM(jlong, j)
template<> struct K<jfloat> { using JT = jfloat;
    static std::string name(jfloat v) { uint32_t u; memcpy(&u, &v, 4); return hex(u, 8); }
    static jfloat val(const std::string& s) { uint32_t u = (uint32_t)std::stoul(s, 0, 16); jfloat v; memcpy(&v, &u, 4); return v; }
    static void set(jvalue& j, jfloat v) { j.f = v; } static JT jni(ENV*, jfloat v) { return v; } };
template<> struct K<jdouble> { using JT = jdouble;
    static std::string name(jdouble v) { uint64_t u; memcpy(&u, &v, 8); return hex(u, 16); }
    static jdouble val(const std::string& s) { uint64_t u = std::stoull(s, 0, 16); jdouble v; memcpy(&v, &u, 8); return v; }
    static void set(jvalue& j, jdouble v) { j.d = v; } static JT jni(ENV*, jdouble v) { return v; } };
static std::string objname(Object* o) {
    if (!o) return "null";
    if (o == st.a.get()) return "a"; if (o == st.b.get()) return "b";
    if (o == (Object*)st.x.get()) return "x"; if (o == (Object*)st.y.get()) return "y";
    if (o == (Object*)st.s.get()) return "s"; if (o == (Object*)st.t.get()) return "t";
    if (o == (Object*)st.q.get()) return "q"; if (o == (Object*)st.u.get()) return "u";
    if (o == (Object*)st.m.get()) return "m"; if (o == (Object*)st.k.get()) return "k";
    return "unknown object";
}
template<class O> struct K<SP<O>> { using JT = jobject;
    static std::string name(const SP<O>& v) { return objname((Object*)v.get()); }
    static SP<O> val(const std::string& s);
    static void set(jvalue& j, jobject v) { j.l = v; }
    // by turns a local, a global and a weak reference
    static JT jni(ENV* e, const SP<O>& v) {
        if (!v) return nullptr;
        if ((Object*)v.get() == st.a.get() && st.tick % 3) return st.tick % 3 == 1 ? st.ga : (jobject)st.wa;
        if ((Object*)v.get() == st.b.get() && st.tick % 3) return st.tick % 3 == 2 ? st.gb : (jobject)st.wb;
        return JNITypes<SP<O>>::ToJNIReturnType(e, v);
    } };
template<> inline SP<Object> K<SP<Object>>::val(const std::string& s) { return s == "a" ? st.a : s == "b" ? st.b : nullptr; }
template<> inline SP<IntArray> K<SP<IntArray>>::val(const std::string& s) { return s == "x" ? st.x : s == "y" ? st.y : nullptr; }
template<> inline SP<StrArray> K<SP<StrArray>>::val(const std::string& s) { return s == "q" ? st.q : s == "u" ? st.u : nullptr; }
template<> inline SP<IntMatrix> K<SP<IntMatrix>>::val(const std::string& s) { return s == "m" ? st.m : s == "k" ? st.k : nullptr; }
template<> inline SP<String> K<SP<String>>::val(const std::string& s) { return s == "s" ? st.s : s == "t" ? st.t : nullptr; }

static void note(void* env, void* recv) { st.n++; st.env = env; st.recv = recv; st.args.clear(); }
template<class... P> static void record(void* env, void* recv, const P&... p) {
    note(env, recv);
    (void)std::initializer_list<int>{(st.args.push_back(K<P>::name(p)), 0)...};
}

// ---- the JNI functions by return type
template<class R> struct F;
#define FN(R, N) template<> struct F<R> { \
    template<class... X> static auto v(JNIEnv* j, jobject o, jmethodID m, X... x) { return j->Call##N##Method(o, m, x...); } \
    static auto l(JNIEnv* j, jobject o, jmethodID m, ...) { va_list l; va_start(l, m); struct E { va_list& l; ~E() { va_end(l); } } e{l}; return j->Call##N##MethodV(o, m, l); } \
    static auto a(JNIEnv* j, jobject o, jmethodID m, jvalue* x) { return j->Call##N##MethodA(o, m, x); } \
    template<class... X> static auto nv(JNIEnv* j, jobject o, jclass c, jmethodID m, X... x) { return j->CallNonvirtual##N##Method(o, c, m, x...); } \
    static auto nl(JNIEnv* j, jobject o, jclass c, jmethodID m, ...) { va_list l; va_start(l, m); struct E { va_list& l; ~E() { va_end(l); } } e{l}; return j->CallNonvirtual##N##MethodV(o, c, m, l); } \
    static auto na(JNIEnv* j, jobject o, jclass c, jmethodID m, jvalue* x) { return j->CallNonvirtual##N##MethodA(o, c, m, x); } \
    template<class... X> static auto sv(JNIEnv* j, jclass o, jmethodID m, X... x) { return j->CallStatic##N##Method(o, m, x...); } \
    static auto sl(JNIEnv* j, jclass o, jmethodID m, ...) { va_list l; va_start(l, m); struct E { va_list& l; ~E() { va_end(l); } } e{l}; return j->CallStatic##N##MethodV(o, m, l); } \
    static auto sa(JNIEnv* j, jclass o, jmethodID m, jvalue* x) { return j->CallStatic##N##MethodA(o, m, x); } \
    };
FN(jobject, Object) FN(jboolean, Boolean) FN(jbyte, Byte) FN(jchar, Char) FN(jshort, Short) FN(jint, Int) FN(jlong, Long) FN(jfloat, Float) FN(jdouble, Double) FN(void, Void)
template<class R> struct JR { using T = typename K<R>::JT; static constexpr bool isvoid = false; };
template<> struct JR<void> { using T = void; static constexpr bool isvoid = true; };
static jobject newl(JNIEnv* j, jclass c, jmethodID m, ...) { va_list l; va_start(l, m); auto r = j->NewObjectV(c, m, l); va_end(l); return r; }

template<class R> static std::string resname(ENV* e, typename JR<R>::T v) { return K<R>::name(v); }
template<class R> static std::string resnameobj(ENV* e, jobject v) { return objname(JNITypes<SP<Object>>::JNICast(e, v).get()); }
template<class R> struct Res { static std::string of(ENV* e, typename JR<R>::T v) { return K<R>::name(v); } static R ret() { return K<R>::val(st.ret); }
    static std::string jv(ENV* e, jvalue v) { R r; memcpy(&r, &v, sizeof r); return K<R>::name(r); } };
template<class O> struct Res<SP<O>> { static std::string of(ENV* e, jobject v) { return objname(JNITypes<SP<Object>>::JNICast(e, v).get()); } static SP<O> ret() { return K<SP<O>>::val(st.ret); }
    static std::string jv(ENV* e, jvalue v) { return of(e, v.l); } };
template<> struct Res<void> { static void ret() {} static std::string jv(ENV*, jvalue) { return ""; } };

struct Ctx { ENV* env; JNIEnv* j; jobject obj; jclass cls, madecls; SP<Object> recv; SP<Class> c, made; std::string sig; };

static const char* L(jboolean*) { return "Z"; } static const char* L(jbyte*) { return "B"; } static const char* L(jchar*) { return "C"; } static const char* L(jshort*) { return "S"; }
static const char* L(jint*) { return "I"; } static const char* L(jlong*) { return "J"; } static const char* L(jfloat*) { return "F"; } static const char* L(jdouble*) { return "D"; }
static const char* L(SP<Object>*) { return "L"; } static const char* L(SP<IntArray>*) { return "A"; } static const char* L(SP<String>*) { return "T"; } static const char* L(SP<StrArray>*) { return "Q"; } static const char* L(SP<IntMatrix>*) { return "W"; } static const char* L(void*) { return "V"; }
// JNI signature of a list of native types
template<class... P> static std::string jsigs() {
    std::string r;
    for (std::string k : std::initializer_list<std::string>{L((P*)nullptr)...}) r += k == "L" ? "Ljava/lang/Object;" : k == "A" ? "[I" : k == "T" ? "Ljava/lang/String;" : k == "Q" ? "[Ljava/lang/String;" : k == "W" ? "[[I" : k;
    return r;
}
struct Sig { virtual ~Sig() {} virtual std::string call(Ctx& x, const std::string& form, const std::vector<std::string>& v) = 0; virtual void hook(Ctx& x) = 0; };

template<class R, class... P> struct SigT : Sig {
    std::string jsig, key;
    void hook(Ctx& x) override {
        jsig = "(" + jsigs<P...>() + ")" + jsigs<R>();
        x.c->HookInstanceFunction(x.env, ("inst" + key).c_str(), [](JNIEnv* j, Object* self, P... p) -> R { record<P...>(j, self, p...); return Res<R>::ret(); });
        x.c->Hook(x.env, ("stat" + key).c_str(), [](ENV* j, Class* self, P... p) -> R { record<P...>(j->GetJNIEnv(), self, p...); return Res<R>::ret(); });
    }
    std::string call(Ctx& x, const std::string& form, const std::vector<std::string>& v) override { return call2(x, form, v, std::index_sequence_for<P...>()); }
    template<size_t... I> std::string call2(Ctx& x, const std::string& f, const std::vector<std::string>& v, std::index_sequence<I...>) {
        auto j = x.j; auto e = x.env;
        using JT = typename JR<R>::T;
        if (f == "m") return Res<R>::jv(e, x.c->getMethod(jsig.c_str(), ("inst" + key).c_str()).invoke(*j, x.recv.get(), K<P>::val(v[I])...));
        if (f == "t") return Res<R>::jv(e, x.c->getMethod(jsig.c_str(), ("stat" + key).c_str()).invoke(*j, x.c.get(), K<P>::val(v[I])...));
        auto mid = f[0] == 's' ? j->GetStaticMethodID(x.cls, ("stat" + key).c_str(), jsig.c_str()) : j->GetMethodID(x.cls, ("inst" + key).c_str(), jsig.c_str());
        if (!mid) return "no method " + jsig;
        jvalue a[sizeof...(P) + 1];
        memset(a, 0xa5, sizeof a);
        (void)std::initializer_list<int>{(K<P>::set(a[I], K<P>::jni(e, K<P>::val(v[I]))), 0)...};
        auto run = [&](auto g) -> std::string { if constexpr (JR<R>::isvoid) { g(); return ""; } else return Res<R>::of(e, g()); };
        if (f == "iv") return run([&] { return F<JT>::v(j, x.obj, mid, K<P>::jni(e, K<P>::val(v[I]))...); });
        if (f == "il") return run([&] { return F<JT>::l(j, x.obj, mid, K<P>::jni(e, K<P>::val(v[I]))...); });
        if (f == "ia") return run([&] { return F<JT>::a(j, x.obj, mid, a); });
        if (f == "nv") return run([&] { return F<JT>::nv(j, x.obj, x.cls, mid, K<P>::jni(e, K<P>::val(v[I]))...); });
        if (f == "nl") return run([&] { return F<JT>::nl(j, x.obj, x.cls, mid, K<P>::jni(e, K<P>::val(v[I]))...); });
        if (f == "na") return run([&] { return F<JT>::na(j, x.obj, x.cls, mid, a); });
        if (f == "sv") return run([&] { return F<JT>::sv(j, x.cls, mid, K<P>::jni(e, K<P>::val(v[I]))...); });
        if (f == "sl") return run([&] { return F<JT>::sl(j, x.cls, mid, K<P>::jni(e, K<P>::val(v[I]))...); });
        if (f == "sa") return run([&] { return F<JT>::sa(j, x.cls, mid, a); });
        return "unknown form";
    }
};
template<class... P> struct CtorT : Sig {
    std::string jsig;
    void hook(Ctx& x) override {
        jsig = "(" + jsigs<P...>() + ")V";
        x.made->Hook(x.env, "<init>", [](ENV* j, Class* self, P... p) -> SP<Made> { record<P...>(j->GetJNIEnv(), self, p...); auto m = std::make_shared<Made>(); st.made = m; return m; });
    }
    std::string call(Ctx& x, const std::string& form, const std::vector<std::string>& v) override { return call2(x, form, v, std::index_sequence_for<P...>()); }
    template<size_t... I> std::string call2(Ctx& x, const std::string& f, const std::vector<std::string>& v, std::index_sequence<I...>) {
        auto j = x.j; auto e = x.env;
        auto mid = j->GetMethodID(x.madecls, "<init>", jsig.c_str());
        if (!mid) return "no constructor " + jsig;
        jvalue a[sizeof...(P) + 1];
        memset(a, 0xa5, sizeof a);
        (void)std::initializer_list<int>{(K<P>::set(a[I], K<P>::jni(e, K<P>::val(v[I]))), 0)...};
        jobject o = f == "cv" ? j->NewObject(x.madecls, mid, K<P>::jni(e, K<P>::val(v[I]))...) : f == "cl" ? newl(j, x.madecls, mid, K<P>::jni(e, K<P>::val(v[I]))...) : j->NewObjectA(x.madecls, mid, a);
        if (!o) return "null";
        if (JNITypes<SP<Object>>::JNICast(e, o) != st.made) return "another object";
        return "new";
    }
};
extern std::map<std::string, Sig*> table;
template<class... T> struct List {};
template<class R, class... P> void add() {
    std::string k = std::string(L((R*)nullptr)) + ":";
    (void)std::initializer_list<int>{(k += (k.back() == ':' ? "" : ","), k += L((P*)nullptr), 0)...};
    if (sizeof...(P) == 0) k += "-";
    auto s = new SigT<R, P...>(); s->key = std::to_string(table.size()); table[k] = s;
}
template<class... P> void addc() {
    std::string k = "N:";
    (void)std::initializer_list<int>{(k += (k.back() == ':' ? "" : ","), k += L((P*)nullptr), 0)...};
    if (sizeof...(P) == 0) k += "-";
    table[k] = new CtorT<P...>();
}
template<class R, class... P> void full() { add<R, R, P...>(); addc<R, P...>(); }
using Z = jboolean; using B = jbyte; using C = jchar; using S = jshort; using I = jint; using J = jlong; using Fl = jfloat; using D = jdouble; using O = SP<Object>; using A = SP<IntArray>; using T = SP<String>; using Q = SP<StrArray>; using W = SP<IntMatrix>;
