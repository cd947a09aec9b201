// Replayer for Vms.tla (C21).
#include "vf.h"
#include "workers.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/method.h>
#include <jnivm/throwable.h>
#include <fake-jni/fake-jni.h>
#include <baron/baron.h>
#include <cstring>
#include <set>
#include <sanitizer/asan_interface.h>
using vf::Args;
using jnivm::ENV;
using jnivm::Class;
using jnivm::VM;
int vf_op_timeout = 20;
static std::map<std::string, int> g_live;
struct Thing : jnivm::Object { std::string n; Thing(const std::string& n) : n(n) { g_live[n]++; } ~Thing() { g_live[n]--; } };
struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
// the protected customisation points of environments and virtual machines
struct EnvX : ENV { static auto p() { return &EnvX::OverrideJNINativeInterface; } };
struct VMX : VM { static auto p() { return &VMX::OverrideJNIInvokeInterface; } };
// VMs live in storage which is used again by the next one, so that a new VM often has the address of a destroyed one
struct Place { alignas(64) char mem[8192]; bool used = false; };
static Place g_place[8];
static Place* place() { for (auto& p : g_place) if (!p.used) { p.used = true; ASAN_UNPOISON_MEMORY_REGION(p.mem, sizeof p.mem); return &p; } abort(); }
static void leave(Place* p) { memset(p->mem, 0xEE, sizeof p->mem); p->used = false; ASAN_POISON_MEMORY_REGION(p->mem, sizeof p->mem); }
template<class T> struct Held {
    static_assert(sizeof(T) <= sizeof(Place::mem), "storage"); Place* at = nullptr; T* p = nullptr;
    Held() {} Held(Held&& o) : at(o.at), p(o.p) { o.at = nullptr; o.p = nullptr; } Held& operator=(Held&& o) { std::swap(at, o.at); std::swap(p, o.p); return *this; } ~Held() { reset(); }
    template<class... A> void make(A&&... a) { auto x = place(); try { p = new (x->mem) T(std::forward<A>(a)...); at = x; } catch (...) { leave(x); throw; } }
    void reset() { if (!p) return; auto q = p; auto x = at; p = nullptr; at = nullptr; q->~T(); leave(x); }
    T* get() const { return p; } T* operator->() const { return p; } explicit operator bool() const { return p; }
};
struct Slot { Held<VM> plain; Held<VJvm> fake; Held<Baron::Jvm> baron; JavaVM* jvm = nullptr; VM* vm = nullptr; bool ini = false; };
static std::function<void(JNINativeInterface&)> hook(const std::string& h) {
    if (h == "h1") return [](JNINativeInterface& t) { t.GetVersion = [](JNIEnv*) -> jint { return 1001; }; };
    if (h == "h2") return [](JNINativeInterface& t) { t.GetVersion = [](JNIEnv*) -> jint { return 1002; }; };
    return [](JNINativeInterface& t) { t.EnsureLocalCapacity = [](JNIEnv*, jint) -> jint { return 77; }; };
}
struct VmsWorld : vf::World {
    std::map<std::string, Slot> vm; std::map<std::string, std::unique_ptr<vf::Worker>> th; std::vector<std::string> vms, ths, names, objs; std::map<std::string, jobject> glob;
    ~VmsWorld() { for (auto& v : vm) kill(v.second); for (auto& t : th) t.second->finish(); }
    void kill(Slot& s) { s.plain.reset(); s.fake.reset(); s.baron.reset(); s = Slot(); }
    ENV* env(const std::string& v) { auto& s = vm[v]; return s.vm && s.ini ? s.vm->GetEnv().get() : nullptr; }
    std::string state(const std::string& r) {
        std::map<std::string, std::map<std::string, ENV*>> envs; std::set<void*> distinct; std::string id = "ok"; size_t n = 0;
        for (auto& t : ths) th[t]->run([&] { for (auto& v : vms) if (auto e = env(v)) { envs[v][t] = e; distinct.insert(e); distinct.insert(e->GetJNIEnv()); n += 2; } });
        if (distinct.size() != n) id = "shared environment";
        vf::Obj all, live; std::set<void*> jvms, classes;
        for (auto& v : vms) {
            auto& s = vm[v]; vf::Obj x;
            if (!s.vm) { vf::Obj c, t; for (auto& k : names) c.t(k, "no"); for (auto& k : ths) t.t(k, "-"); all.raw(v, vf::Obj().t("k", "").i("d", 0).raw("c", c.end()).raw("t", t.end()).end()); continue; }
            vf::Obj c, t;
            if (VM::FromJavaVM(s.jvm) != s.vm || VM::FromJavaVM(s.vm->GetJavaVM()) != s.vm || !jvms.insert(s.vm->GetJavaVM()).second) id = "wrong vm";
            for (auto& k : names) {
                auto f = s.vm->classes.find(k); if (f == s.vm->classes.end()) { c.t(k, "no"); continue; }
                if (!classes.insert(f->second.get()).second) id = "shared class";
                jnivm::Method* m = nullptr; for (auto& x : f->second->methods) if (x->name == "f" && x->_static) m = x.get();
                if (!m || envs[v].empty()) { c.t(k, "yes"); continue; }
                auto e = envs[v].begin()->second->GetJNIEnv(); c.t(k, std::to_string(e->CallStaticIntMethod((jclass)f->second.get(), (jmethodID)m)));
            }
            for (auto& k : ths) {
                if (!envs[v].count(k)) { t.t(k, "-"); continue; }
                auto e = envs[v][k]; auto j = e->GetJNIEnv(); JavaVM* back = nullptr;
                if (e->GetVM() != s.vm || ENV::FromJNIEnv(j) != e || j->GetJavaVM(&back) != JNI_OK || back != s.vm->GetJavaVM()) id = "environment of another vm";
                t.t(k, std::to_string(j->GetVersion()) + "," + std::to_string(j->EnsureLocalCapacity(1)) + "," + (j->ExceptionCheck() ? "ex" : ""));
            }
            all.raw(v, vf::Obj().t("k", kinds[v]).i("d", s.jvm->DestroyJavaVM()).raw("c", c.end()).raw("t", t.end()).end());
        }
        for (auto& o : objs) live.i(o, g_live[o]);
        return vf::Obj().t("r", r).raw("vm", all.end()).raw("live", live.end()).t("id", id).end();
    }
    std::map<std::string, std::string> kinds;
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") { // threads / vms / names / objects
            g_live.clear(); std::vector<std::string>* part[] = {&ths, &vms, &names, &objs}; int p = 0;
            for (auto& x : a) { if (x == "/") p++; else part[p]->push_back(x); }
            for (auto& t : ths) th[t].reset(new vf::Worker);
            return "0";
        }
        std::string r = "ok", &v = const_cast<std::string&>(a[1]);
        th.at(a[0])->run([&] {
            try {
                if (n == "null") { if (v == "env") ENV::FromJNIEnv(nullptr); else VM::FromJavaVM(nullptr); return; }
                auto& s = vm[v];
                if (n == "create") {
                    auto& k = a[2]; Slot x; x.ini = true;
                    if (k == "lenient") x.plain.make(); else if (k == "strict") x.plain.make(false, true); else if (k == "bare") { x.plain.make(true, false); x.ini = false; }
                    else if (k == "fake") x.fake.make(true); else if (k == "baron") x.baron.make(); else x.baron.make([](Baron::Jvm* j) { j->AddHook(hook("h1")); });
                    x.jvm = x.plain ? x.plain->GetJavaVM() : x.fake ? (JavaVM*)x.fake.get() : (JavaVM*)x.baron.get(); x.vm = VM::FromJavaVM(x.jvm);
                    s = std::move(x); kinds[v] = k; return;
                }
                if (n == "init") { s.plain->initialize(); s.ini = true; return; }
                if (n == "destroy") { for (auto& o : objs) if (glob.count(o) && owner[o] == v) glob.erase(o); kill(s); return; }
                if (n == "addhook") { if (s.plain) s.plain->AddHook(hook(a[2])); else s.baron->AddHook(hook(a[2])); return; }
                if (n == "attach") {
                    auto before = s.vm->GetEnv().get(); JNIEnv* e = nullptr; auto rc = s.jvm->AttachCurrentThread(&e, nullptr); auto now = s.vm->GetEnv().get();
                    r = rc != JNI_OK || !now || ENV::FromJNIEnv(e) != now ? "wrong environment" : before == now ? "same" : "new"; return;
                }
                if (n == "detach") { s.jvm->DetachCurrentThread(); return; }
                if (n == "overridevm") {
                    auto t = *s.jvm->functions; int other; auto p = VMX::p();
                    if (a[2] == "null") { t.reserved0 = nullptr; t.DestroyJavaVM = [](JavaVM*) -> jint { return 55; }; }
                    else if (a[2] == "own") t.DestroyJavaVM = [](JavaVM*) -> jint { return 66; };
                    else { t.reserved0 = &other; t.DestroyJavaVM = [](JavaVM*) -> jint { return 99; }; }
                    (s.vm->*p)(t); return;
                }
                if (n == "deny") { s.baron->denyClass(a[2].data()); return; }
                auto x = s.vm->GetEnv().get(); auto e = x->GetJNIEnv(); auto p = EnvX::p();
                if (n == "override") {
                    auto t = *e->functions; int other;
                    if (a[2] == "null") { t.reserved0 = nullptr; t.GetVersion = [](JNIEnv*) -> jint { return 2001; }; }
                    else if (a[2] == "own") t.EnsureLocalCapacity = [](JNIEnv*, jint) -> jint { return 88; };
                    else { t.reserved0 = &other; t.EnsureLocalCapacity = [](JNIEnv*, jint) -> jint { return 99; }; }
                    (x->*p)(t);
                }
                else if (n == "take") {
                    ENV* from = nullptr; if (a[2] == a[0]) from = env(a[3]); else { auto& w = th.at(a[2]); w->run([&] { from = env(a[3]); }); }
                    auto t = *from->GetJNIEnv()->functions; if (a[4] == "null") t.reserved0 = nullptr;
                    (x->*p)(t);
                }
                else if (n == "throw") { auto t = std::make_shared<jnivm::Throwable>(); t->except = std::make_exception_ptr(std::runtime_error("x")); auto l = jnivm::JNITypes<std::shared_ptr<jnivm::Throwable>>::ToJNIReturnType(x, t); e->Throw((jthrowable)l); e->DeleteLocalRef((jobject)l); }
                else if (n == "clear") e->ExceptionClear();
                else if (n == "find") { auto c = e->FindClass(a[2].data()); if (c) e->DeleteLocalRef(c); r = c ? "found" : "null"; }
                else if (n == "hook") { auto c = x->GetClass(a[2].data()); jint val = atoi(a[3].data()); c->Hook(x, "f", [val](ENV*, Class*) -> jint { return val; }); }
                else if (n == "make") {
                    auto name = "v/" + v; { auto c = x->GetClass<Thing>(name.data()); }
                    auto l = (jobject)jnivm::JNITypes<std::shared_ptr<Thing>>::ToJNIReturnType(x, std::make_shared<Thing>(a[2]));
                    auto c = e->GetObjectClass(l); if (c != (jclass)s.vm->classes[name].get()) r = "class of another vm"; e->DeleteLocalRef(c);
                    if (a[3] == "global") { glob[a[2]] = e->NewGlobalRef(l); owner[a[2]] = v; e->DeleteLocalRef(l); }
                }
                else if (n == "drop") { e->DeleteGlobalRef(glob[a[2]]); glob.erase(a[2]); }
                else r = "?";
            } catch (std::exception& ex) { r = ex.what(); }
        });
        return state(r);
    }
    std::map<std::string, std::string> owner;
};
vf::World* vf_make_world() { return new VmsWorld; }
std::string vf_fini() { return vf::Obj().end(); }
