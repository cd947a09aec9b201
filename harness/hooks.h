// Replayer for Hooks.tla (C24), see hooks.cpp: every native shape is a template instance.
#pragma once
#define VF_NO_MAIN
#include "vf.h"
#include <jnivm.h>
#include <fake-jni/fake-jni.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/method.h>
#include <jnivm/field.h>
#include <jnivm/extends.h>
using jnivm::ENV; using jnivm::Object; using jnivm::Extends; using jnivm::JNITypes; using jnivm::Class; using jnivm::String;
template<class T> using SP = std::shared_ptr<T>;
template<class T> using Arr = jnivm::Array<T>;

// what the implementation received
struct Got { int n = 0; std::string args; void* env = nullptr; std::string who; };
extern Got got;
extern std::function<void()> during;   // what the next implementation does while it runs
struct Named : Extends<Object> { static std::string getClassName() { return "t/Named"; } };
struct Made;
struct Parent : Extends<Object> {};
struct Recv : Extends<Parent> {
    template<class R, class... P> R mf(P... p);
    template<class R, class... P> R mfc(P... p) const;
};
struct Made : Extends<Object> {};
struct Child : Extends<Recv> {};

struct Objs { SP<Recv> recv, b; SP<Object> a; SP<Made> m; SP<Parent> p; SP<Child> d; SP<Class> cls, clsarg; SP<Named> n; SP<String> s, t; SP<Arr<jint>> ia; SP<Arr<Arr<jint>>> iaa; SP<Arr<SP<String>>> sa; };
extern Objs ob;

static std::string nameof(const void* p) {
    if (!p) return "null";
#define N(x) if (p == (const void*)(Object*)ob.x.get()) return #x;
    N(recv) N(b) N(a) N(m) N(p) N(d) N(cls) N(clsarg) N(n) N(s) N(t)
#undef N
    if (p == (const void*)(Object*)ob.ia.get()) return "ia"; if (p == (const void*)(Object*)ob.iaa.get()) return "iaa"; if (p == (const void*)(Object*)ob.sa.get()) return "sa";
    return "unknown";
}
static std::string nm(ENV* e) { got.env = e->GetJNIEnv(); return ""; }
static std::string nm(JNIEnv* e) { got.env = e; return ""; }
template<class T> std::enable_if_t<std::is_arithmetic<T>::value, std::string> nm(T v) { return std::to_string((long long)v); }
template<class T> std::string nm(const SP<T>& v) { return nameof((Object*)v.get()); }
template<class T> std::enable_if_t<std::is_base_of<Object, T>::value, std::string> nm(T* v) { return nameof((Object*)v); }
static std::string nm(jobject v) { return nameof(JNITypes<SP<Object>>::JNICast(ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv()), v).get()); }
static std::string nm(jclass v) { return nameof((Object*)JNITypes<SP<Class>>::JNICast(ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv()), v).get()); }
template<class... P> void received(const P&... p) {
    got.n++; got.args.clear(); got.env = nullptr;
    (void)std::initializer_list<int>{([&] { auto s = nm(p); if (!s.empty()) got.args += (got.args.empty() ? "" : ",") + s; }(), 0)...};
    if (during) { auto f = std::move(during); during = nullptr; f(); }
}
template<class R> struct Ret { static R v() { return (R)42; } };
template<> struct Ret<void> { static void v() {} };
template<> struct Ret<bool> { static bool v() { return true; } };
#define RET(T, x) template<> struct Ret<SP<T>> { static SP<T> v() { return ob.x; } };
RET(String, t) RET(Object, a) RET(Recv, b) RET(Named, n) RET(Class, clsarg) RET(Arr<jint>, ia) RET(Arr<Arr<jint>>, iaa) RET(Arr<SP<String>>, sa)
template<class R, class... P> R Recv::mf(P... p) { received(this, p...); got.who = "mem"; return Ret<R>::v(); }
template<class R, class... P> R Recv::mfc(P... p) const { received((Recv*)this, p...); got.who = "memc"; return Ret<R>::v(); }

struct Shape { virtual ~Shape() {} virtual bool install(Class* c, ENV* e, const std::string& form, const std::string& name, const std::string& who) = 0; };
extern std::map<std::string, Shape*> shapes;

template<class... T> struct TL {};
enum { FN = 1, ST = 2, GETI = 4, GETS = 8, GET = GETI | GETS, SETI = 16, SETS = 32, SET = SETI | SETS, MF = 64 };
// what: which forms of hooking are instantiated
template<int what, class R, class... P> struct ShapeT : Shape {
    static auto lam(const std::string& who) { return [who, alive = 7](P... p) -> R { received(p...); got.who = alive == 7 ? who : "what it captured is gone"; return Ret<R>::v(); }; }
    static R fun(P... p) { received(p...); got.who = "fun"; return Ret<R>::v(); }
    bool install(Class* c, ENV* e, const std::string& form, const std::string& name, const std::string& who) override {
        if constexpr (what & FN) {
            if (form == "inst") { c->HookInstance(e, name, lam(who)); return true; }
            if (form == "instf") { c->HookInstanceFunction(e, name, lam(who)); return true; }
        }
        if constexpr (what & ST) {
            if (form == "hook") { c->Hook(e, name, lam(who)); return true; }
            if (form == "hookp") { c->Hook(e, name, &fun); return true; }
        }
        if constexpr (what & GET) {
            if constexpr ((what & FN) && (what & GETI)) if (form == "iget") { c->HookInstanceGetterFunction(e, name, lam(who)); return true; }
            if constexpr ((what & ST) && (what & GETS)) if (form == "get") { c->HookGetterFunction(e, name, lam(who)); return true; }
        }
        if constexpr (what & SET) {
            if constexpr ((what & FN) && (what & SETI)) if (form == "iset") { c->HookInstanceSetterFunction(e, name, lam(who)); return true; }
            if constexpr ((what & ST) && (what & SETS)) if (form == "set") { c->HookSetterFunction(e, name, lam(who)); return true; }
        }
        if constexpr (what & MF) {
            R (Recv::*m)(P...) = &Recv::mf<R, P...>;
            R (Recv::*mc)(P...) const = &Recv::mfc<R, P...>;
            if (form == "mem") { c->Hook(e, name, std::move(m)); return true; }
            if (form == "memc") { c->HookInstance(e, name, std::move(mc)); return true; }
        }
        return false;
    }
};
template<int what, class R, class... P> void shape(const std::string& key) { shapes[key] = new ShapeT<what, R, P...>(); }
