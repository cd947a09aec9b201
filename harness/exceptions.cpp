// Replayer for Exceptions.tla (C09).
#include "vf.h"
#include "workers.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/extends.h>
#include <jnivm/throwable.h>
#include <jnivm/method.h>
#include <fake-jni/fake-jni.h>
#include <cstdarg>
using vf::Args;
using jnivm::ENV; using jnivm::Class; using jnivm::Object;
int vf_op_timeout = 20;
static int g_count[4];
struct Ex { int n; };                      // not derived from std::exception
struct VThrow : jnivm::Extends<jnivm::Throwable> {
    int id;
    explicit VThrow(int id) : id(id) { g_count[id]++; if (id == 1) except = std::make_exception_ptr(Ex{9}); }
    ~VThrow() { g_count[id]--; }
};
struct VRecv : jnivm::Extends<> {};
struct Err : std::runtime_error { std::string more; Err() : std::runtime_error("impl err"), more("what an exception carries") {} };
struct Rng : std::out_of_range { int code; Rng() : std::out_of_range("impl range"), code(77) {} };
// the exception of exactly that type, with everything it carries
static std::string which(std::exception_ptr e) {
    if (!e) return "?";
    try { std::rethrow_exception(e); }
    catch (const Ex& x) { return x.n == 9 ? "o1" : "m" + std::to_string(x.n); }
    catch (const Err& x) { return std::string(x.what()) == "impl err" && x.more == "what an exception carries" ? "m1" : "?"; }
    catch (const Rng& x) { return std::string(x.what()) == "impl range" && x.code == 77 ? "m1" : "?"; }
    catch (int x) { return x == 2 ? "m2" : "?"; }
    catch (const std::string& x) { return x == "two" ? "m2" : "?"; }
    catch (const char* x) { return std::string(x) == "two" ? "m2" : "?"; }
    catch (const std::runtime_error& x) { std::string s = x.what(); return s == "message 1" ? "n1" : s == "message zwei" ? "n2" : s == "impl 1" && typeid(x) == typeid(std::runtime_error) ? "m1" : "?"; }
    catch (...) { return "?"; }
}
static const char* MSG[] = {"", "message 1", "message zwei"};
static std::vector<std::string> BEH = {"ok", "thr1", "thr2", "tnew1", "tnew2", "clr", "nest", "nestp", "nestthr"};
static jclass g_cls; static jmethodID g_inner; static int g_ran;
// by turns exceptions of several types
static void throwImpl(int m) {
    static unsigned turn; ++turn;
    if (m == 1) { if (turn % 3 == 0) throw Err(); if (turn % 3 == 1) throw Rng(); throw std::runtime_error("impl 1"); }
    if (turn % 4 == 0) throw 2; if (turn % 4 == 1) throw std::string("two"); if (turn % 4 == 2) throw "two";
    throw Ex{m};
}
static void behave(JNIEnv* j, int b) {
    auto& s = BEH[b];
    g_ran++;
    if (s == "thr1") throwImpl(1);
    if (s == "thr2") throwImpl(2);
    if (s == "tnew1" || s == "tnew2") j->ThrowNew(g_cls, MSG[s.back() - '0']);
    if (s == "clr") j->ExceptionClear();
    if (s.substr(0, 4) == "nest") {        // calls an implementation that throws
        j->CallStaticVoidMethod(g_cls, g_inner, s == "nestthr" ? 2 : 1);
        if (!j->ExceptionCheck()) throw std::logic_error("inner exception lost");
        if (s == "nest") j->ExceptionClear();
        if (s == "nestp") { j->ExceptionClear(); j->CallStaticVoidMethod(g_cls, g_inner, 2); }
        if (s == "nestthr") throwImpl(1);
    }
}
static const jint VI = -77; static const jlong VJ = 0x123456789abcdefLL; static const jfloat VF = 1.5f; static const jdouble VD = -2.25;
static std::shared_ptr<VRecv> g_res;
// registered native functions
template<class T> T natval(); template<> jboolean natval() { return 1; } template<> jbyte natval() { return -7; } template<> jchar natval() { return 0xffee; }
template<> jshort natval() { return -300; } template<> jint natval() { return VI; } template<> jlong natval() { return VJ; } template<> jfloat natval() { return VF; }
template<> jdouble natval() { return VD; } template<> jobject natval() { return (jobject)(Object*)g_res.get(); } template<> void natval() {}
template<class T> struct Nat { static T call(JNIEnv* e, jobject, jint b) { behave(e, b); return natval<T>(); } };

template<class F> static void hooks(ENV* env, Class* c, const char* t, F val) {
    c->Hook(env, std::string("s") + t, [val](ENV* e, Class*, jint b) { behave(e->GetJNIEnv(), b); return val(); });
    c->HookInstanceFunction(env, std::string("i") + t, [val](ENV* e, VRecv*, jint b) { behave(e->GetJNIEnv(), b); return val(); });
}
#define EACH(X) X(Z, Boolean, jboolean) X(B, Byte, jbyte) X(C, Char, jchar) X(S, Short, jshort) X(I, Int, jint) X(J, Long, jlong) X(F, Float, jfloat) X(D, Double, jdouble)
struct VJvm : FakeJni::Jvm { VJvm() : FakeJni::Jvm(false, true) {} };
struct ExWorld : vf::World {
    std::unique_ptr<VJvm> vm;
    std::vector<std::unique_ptr<vf::Worker>> th;
    std::map<int, JNIEnv*> envs;
    std::map<int, std::shared_ptr<VThrow>> nat; std::map<int, std::weak_ptr<VThrow>> all;
    std::shared_ptr<Class> cls; std::shared_ptr<VRecv> recv;
    int nth = 1; std::vector<int> objs;
    ExWorld() {
        memset(g_count, 0, sizeof g_count);
        vm.reset(new VJvm());
        auto env = jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); auto j = env->GetJNIEnv();
        envs[1] = j;
        env->GetClass<VThrow>("vf/Throw");
        cls = env->GetClass<VRecv>("vf/Recv");
        g_cls = (jclass)cls.get();
        auto c = cls.get();
        g_res = std::make_shared<VRecv>(); recv = std::make_shared<VRecv>();
#define HK(t, n, ty) hooks(env, c, #t, [] { return natval<ty>(); });
        EACH(HK)
        hooks(env, c, "V", [] {});
        hooks(env, c, "L", [] { return g_res; });
        c->Hook(env, "<init>", [](ENV* e, Class*, jint b) { behave(e->GetJNIEnv(), b); return g_res; });
        c->Hook(env, "inner", [](ENV*, Class*, jint m) { throwImpl(m); });
        g_inner = j->GetStaticMethodID(g_cls, "inner", "(I)V");
        static std::vector<std::string> keep; keep.clear(); keep.reserve(40);
        std::vector<JNINativeMethod> ms;
        auto add = [&](const char* t, void* f) {
            keep.push_back(std::string("n") + t); auto n = keep.back().c_str();
            keep.push_back(std::string("(I)") + (t[0] == 'L' ? "Lvf/Recv;" : t)); ms.push_back({(char*)n, (char*)keep.back().c_str(), f});
        };
#define NT(t, n, ty) add(#t, (void*)&Nat<ty>::call);
        EACH(NT)
        add("V", (void*)&Nat<void>::call); add("L", (void*)&Nat<jobject>::call);
        j->RegisterNatives(g_cls, ms.data(), (jint)ms.size());
    }
    ~ExWorld() { nat.clear(); g_res.reset(); recv.reset(); cls.reset(); th.clear(); vm.reset(); }
    void on(int t, std::function<void()> f) { if (t == 1) f(); else th[t - 2]->run(f); }
    static std::string call(JNIEnv* j, jobject rcv, const std::string& f, const std::string& ty, int b);
    template<class T> static std::string cmp(T r) { T v = natval<T>(); return r == v ? "ok" : r == T{} ? "dflt" : "wrong"; }
    std::string pendof(int t) {
        if (!envs.count(t)) return "x";
        std::string s;
        on(t, [&] {
            JNIEnv* j = envs[t];
            j->PushLocalFrame(0);
            bool chk = j->ExceptionCheck();
            jthrowable a = j->ExceptionOccurred(), b = j->ExceptionOccurred();
            if (chk != (a != nullptr) || !j->IsSameObject(a, b)) s = "inconsistent";
            else if (!a) s = "-";
            else {
                auto o = dynamic_cast<VThrow*>((Object*)a); auto tr = dynamic_cast<jnivm::Throwable*>((Object*)a);
                std::string cn = ((Class*)j->GetObjectClass(a))->getName();
                if (!tr) s = "not a throwable";
                else if (o) s = "o" + std::to_string(o->id) + (o->id == 1 && which(tr->except) != "o1" ? "!" : "") + (cn == "vf/Throw" ? "" : cn);
                else s = which(tr->except) + (cn == "java/lang/Throwable" ? "" : cn);
            }
            j->PopLocalFrame(nullptr);
        });
        return s;
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") {
            nth = std::stoi(a[0]);
            for (int i = 0; i < std::stoi(a[1]); ++i) objs.push_back(i + 1);
            for (int t = 2; t <= nth; ++t) {
                th.emplace_back(new vf::Worker);
                th.back()->run([&] { JNIEnv* e; vm->AttachCurrentThread(&e, nullptr); envs[t] = e; });
            }
            return "0";
        }
        std::string r = "0";
        if (n == "make") { int o = std::stoi(a[0]); nat[o] = std::make_shared<VThrow>(o); all[o] = nat[o]; }
        else if (n == "drop") nat.erase(std::stoi(a[0]));
        else {
            int t = std::stoi(a[0]);
            on(t, [&] {
                if (n == "attach") { JNIEnv* e; vm->AttachCurrentThread(&e, nullptr); envs[t] = e; return; }
                if (n == "detach") { vm->DetachCurrentThread(); envs.erase(t); return; }
                JNIEnv* j = envs[t]; ENV* env = ENV::FromJNIEnv(j);
                j->PushLocalFrame(0);
                if (n == "thrownew") r = std::to_string(j->ThrowNew(g_cls, MSG[a[1][1] - '0']));
                else if (n == "throw") {
                    auto p = all[std::stoi(a[1])].lock();
                    jobject l = jnivm::JNITypes<std::shared_ptr<VThrow>>::ToJNIType(env, p);
                    if (a[2] == "g") { jobject g = j->NewGlobalRef(l); j->DeleteLocalRef(l); p.reset(); r = std::to_string(j->Throw((jthrowable)g)); j->DeleteGlobalRef(g); }
                    else if (a[2] == "w") { jobject g = j->NewWeakGlobalRef(l); p.reset(); r = std::to_string(j->Throw((jthrowable)g)); j->DeleteWeakGlobalRef(g); }
                    else r = std::to_string(j->Throw((jthrowable)l));
                }
                else if (n == "clear") j->ExceptionClear();
                else if (n == "describe") j->ExceptionDescribe();
                else if (n == "call") {
                    g_ran = 0;
                    int b = int(std::find(BEH.begin(), BEH.end(), a[3]) - BEH.begin());
                    jobject rc = jnivm::JNITypes<std::shared_ptr<VRecv>>::ToJNIType(env, recv);
                    try { r = call(j, rc, a[1], a[2], b); } catch (...) { r = "left by an exception"; }
                    if (g_ran != 1) r += " ran " + std::to_string(g_ran);
                    r = vf::q(r);
                } else if (n == "invoke") {
                    g_ran = 0;
                    int b = int(std::find(BEH.begin(), BEH.end(), a[3]) - BEH.begin());
                    auto& ty = a[2];
                    std::string sig = "(I)" + (ty == "L" ? std::string("Lvf/Recv;") : ty);
                    auto m = cls->getMethod(sig.c_str(), (a[1] + ty).c_str());
                    try {
                        jvalue v = a[1] == "s" ? m.invoke(*j, cls.get(), (jint)b) : m.invoke(*j, recv.get(), (jint)b);
                        switch (ty[0]) {
#define CV(t, nn, x) case *#t: { x y; memcpy(&y, &v, sizeof y); r = cmp<x>(y); break; }
                            EACH(CV)
                            case 'V': r = "ok"; break;
                            case 'L': r = v.l == (jobject)(Object*)g_res.get() ? "ok" : "wrong"; break;
                        }
                    } catch (...) { r = "threw:" + which(std::current_exception()); }
                    if (g_ran != 1) r += " ran " + std::to_string(g_ran);
                    r = vf::q(r);
                } else r = "\"unknown op\"";
                j->PopLocalFrame(nullptr);
            });
        }
        std::vector<std::string> p; for (int t = 1; t <= nth; ++t) p.push_back(pendof(t));
        std::vector<long long> lv; for (int o : objs) lv.push_back(g_count[o]);
        return vf::Obj().raw("r", r).raw("p", vf::sarr(p)).raw("live", vf::iarr(lv)).end();
    }
};
struct VA { // calls a va_list taking member
    template<class R, class F> static R call(F f, ...) { va_list l; va_start(l, f); struct G { va_list& l; ~G() { va_end(l); } } g{l}; return f(l); }
};
std::string ExWorld::call(JNIEnv* j, jobject rcv, const std::string& f, const std::string& ty, int b) {
    char k = f[0], form = f[1];
    jvalue args[1]; memset(args, 0, sizeof args); args[0].i = b;
    std::string nm = (k == 's' ? "s" : "i") + ty, sig = "(I)" + (ty == "L" ? std::string("Lvf/Recv;") : ty);
    jmethodID id = ty == "N" ? j->GetMethodID(g_cls, "<init>", "(I)V") : k == 's' ? j->GetStaticMethodID(g_cls, nm.c_str(), sig.c_str()) : j->GetMethodID(g_cls, nm.c_str(), sig.c_str());
    if (ty == "N") {
        jobject o = form == 'v' ? j->NewObject(g_cls, id, b) : form == 'V' ? VA::call<jobject>([&](va_list l) { return j->NewObjectV(g_cls, id, l); }, b) : j->NewObjectA(g_cls, id, args);
        return o == (jobject)(Object*)g_res.get() ? "ok" : !o ? "dflt" : "wrong";
    }
#define CALLS(Name) \
    (k == 's' ? (form == 'v' ? j->CallStatic##Name##Method(g_cls, id, b) : form == 'V' ? VA::call<decltype(j->CallStatic##Name##Method(g_cls, id))>([&](va_list l) { return j->CallStatic##Name##MethodV(g_cls, id, l); }, b) : j->CallStatic##Name##MethodA(g_cls, id, args)) \
   : k == 'i' ? (form == 'v' ? j->Call##Name##Method(rcv, id, b) : form == 'V' ? VA::call<decltype(j->CallStatic##Name##Method(g_cls, id))>([&](va_list l) { return j->Call##Name##MethodV(rcv, id, l); }, b) : j->Call##Name##MethodA(rcv, id, args)) \
   : (form == 'v' ? j->CallNonvirtual##Name##Method(rcv, g_cls, id, b) : form == 'V' ? VA::call<decltype(j->CallStatic##Name##Method(g_cls, id))>([&](va_list l) { return j->CallNonvirtual##Name##MethodV(rcv, g_cls, id, l); }, b) : j->CallNonvirtual##Name##MethodA(rcv, g_cls, id, args)))
    switch (ty[0]) {
#define CC(t, nn, x) case *#t: return cmp<x>(CALLS(nn));
        EACH(CC)
        case 'V': { bool w = j->ExceptionCheck(); (void)w; CALLS(Void); return BEH[b] == "thr1" || BEH[b] == "thr2" || BEH[b] == "nestthr" ? "dflt" : "ok"; }
        case 'L': { jobject o = CALLS(Object); return o == (jobject)(Object*)g_res.get() ? "ok" : !o ? "dflt" : "wrong"; }
    }
    return "?";
}
vf::World* vf_make_world() { return new ExWorld; }
std::string vf_fini() { return vf::Obj().i("leak", g_count[1] + g_count[2]).end(); }
