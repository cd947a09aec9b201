// Replayer for Libraries.tla (C16) and Main.tla (C25).
#include "vf.h"
#include "workers.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <fake-jni/fake-jni.h>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object;
int vf_op_timeout = 20;
struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
struct Handle { std::string path; char set; bool closed = false; }; // path "" : the main program
static std::vector<std::unique_ptr<Handle>> g_handles;
static std::map<std::string, std::vector<std::string>> g_ev; static bool g_avail; static JavaVM* g_vm; static std::string g_current;
static void ev(const std::string& p, const std::string& e) { g_ev[p].push_back(e); }
static std::string vmok(JavaVM* v, void* r) { // the entry points are given the VM, which works
    if (v != g_vm || r) return " wrong arguments"; JNIEnv* e = nullptr; if (v->GetEnv((void**)&e, JNI_VERSION_1_6) != JNI_OK || !e) return " no environment";
    JavaVM* w = nullptr; e->GetJavaVM(&w); if (!w) return " no vm"; return e->FindClass("java/lang/String") ? "" : " no class";
}
#define ENTRY(N, P) static jint load_##N(JavaVM* v, void* r) { ev(P, "load" + vmok(v, r)); return JNI_VERSION_1_6; } static void unload_##N(JavaVM* v, void* r) { ev(P, "unload" + vmok(v, r)); }
ENTRY(a, "a") ENTRY(st, "st") ENTRY(late, "late.so") ENTRY(empty, "empty") ENTRY(dir, "dir/lib.so") ENTRY(plainmain, "main program")
static void entry(const char* p, bool load, JavaVM* v, void* r);
static jint load_na(JavaVM* v, void* r) { entry("na", true, v, r); return JNI_VERSION_1_6; } static void unload_na(JavaVM* v, void* r) { entry("na", false, v, r); }
static jint load_nb(JavaVM* v, void* r) { entry("nb", true, v, r); return JNI_VERSION_1_6; } static void unload_nb(JavaVM* v, void* r) { entry("nb", false, v, r); }
template<char S> void* f_open(const char* n, int) {
    std::string p = n ? n : "";
    if (n && p == "") p = "empty";
    if (n && !(p == "a" || p == "plain" || p == "empty" || p == "dir/lib.so" || p == "na" || p == "nb" || (p == "late.so" && g_avail))) return nullptr;
    if (!n && !(g_current == "st" || g_current == "stq")) { ev(g_current, "opened the main program"); return nullptr; }
    g_handles.emplace_back(new Handle{p, S}); ev(n ? p : g_current, std::string("open ") + S);
    if (!n) g_handles.back()->path = "=" + g_current;
    return g_handles.back().get();
}
template<char S> void* f_sym(void* h, const char* s) {
    auto* x = (Handle*)h; std::string n = s;
    if (!x || x->closed || x->set != S) { ev(g_current, "symbol of a wrong handle"); return nullptr; }
    if (x->path[0] == '=') {
        if (n == "JNI_OnLoad") return (void*)&load_plainmain; if (n == "JNI_OnUnload") return (void*)&unload_plainmain;
        if (n == "JNI_OnLoad_st") return (void*)&load_st; if (n == "JNI_OnUnload_st") return (void*)&unload_st; return nullptr;
    }
    bool l = n == "JNI_OnLoad", u = n == "JNI_OnUnload"; if (!l && !u) return nullptr;
    if (x->path == "a") return l ? (void*)&load_a : (void*)&unload_a; if (x->path == "late.so") return l ? (void*)&load_late : (void*)&unload_late;
    if (x->path == "na") return l ? (void*)&load_na : (void*)&unload_na; if (x->path == "nb") return l ? (void*)&load_nb : (void*)&unload_nb;
    if (x->path == "empty") return l ? (void*)&load_empty : nullptr; if (x->path == "dir/lib.so") return l ? (void*)&load_dir : nullptr;
    return nullptr;
}
template<char S> int f_close(void* h) {
    auto* x = (Handle*)h; std::string p = x->path[0] == '=' ? x->path.substr(1) : x->path;
    ev(p, x->closed ? "closed twice" : x->set != S ? "closed with the wrong function" : std::string("close ") + S); x->closed = true; return 0;
}
static FakeJni::LibraryOptions opt(char s) { if (s == 'A') return { &f_open<'A'>, &f_sym<'A'>, &f_close<'A'> }; return { &f_open<'B'>, &f_sym<'B'>, &f_close<'B'> }; }
static char g_set;
static void entry(const char* p, bool load, JavaVM* v, void* r) {
    ev(p, (load ? "load" : "unload") + vmok(v, r)); auto j = static_cast<FakeJni::Jvm*>(v); auto cur = g_current;
    auto attach = [&](const char* q) { g_current = q; j->attachLibrary(q, "", opt(g_set)); g_current = cur; };
    auto remove = [&](const char* q) { g_current = q; j->removeLibrary(q); g_current = cur; };
    std::string s = p;
    if (load) { if (s == "na") { attach("nb"); attach("na"); } else { attach("na"); attach("a"); } }
    else if (s == "na") remove("a"); else remove("nb");
}
struct LibWorld : vf::World {
    std::unique_ptr<VJvm> vm; std::vector<std::string> paths; vf::Worker w; std::vector<std::string> got; int cb = 0; bool thread = false; int ncl = 0;
    std::string done() { vf::Obj o; for (auto& p : paths) { auto& e = g_ev[p]; o.raw(p, vf::sarr(e)); g_ev.erase(p); } for (auto& x : g_ev) o.raw(x.first, vf::sarr(x.second)); g_ev.clear(); return o.end(); }
    std::string real(const std::string& p) { return p == "empty" ? "" : p; }
    ~LibWorld() { w.run([this] { if (vm && FakeJni::JniEnv::getCurrentEnv()) vm->DetachCurrentThread(); }); vm.reset(); }
    using Arr = FakeJni::JArray<FakeJni::JString>;
    void main(int k, Arr* a, std::thread::id t) { got.clear(); cb = k; for (jsize i = 0; i < a->getSize(); ++i) { std::shared_ptr<jnivm::String> s = (*a)[i]; got.push_back(s->asStdString()); } thread = std::this_thread::get_id() == t; }
    std::thread::id expected;
    std::string start(const std::string& where, std::function<void()> f) {
        std::string r; bool still = false; cb = 0;
        auto go = [&] { expected = std::this_thread::get_id(); try { f(); r = cb ? vf::Obj().i("cb", cb).raw("args", vf::sarr(got)).b("thread", thread).end() : "\"nothing ran\""; } catch (std::exception& e) { r = vf::q(e.what()); } still = FakeJni::JniEnv::getCurrentEnv() != nullptr; };
        if (where == "main") go(); else w.run(go);
        return vf::Obj().raw("r", r).b("still", still).end();
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") {
            vm.reset(new VJvm(a[0] == "strict")); g_vm = vm.get(); g_handles.clear(); g_ev.clear(); g_avail = false;
            for (size_t i = 1; i < a.size(); ++i) paths.push_back(a[i]);
            vm->AttachCurrentThread((JNIEnv**)nullptr, nullptr); return "0";
        }
        if (n == "attach" && a.size()) { g_current = a[0]; g_set = a[1][0]; vm->attachLibrary(real(a[0]), "", opt(a[1][0])); return done(); }
        if (n == "remove") { g_current = a[0]; vm->removeLibrary(real(a[0])); return done(); }
        if (n == "avail") { g_avail = a[0] == "1"; return done(); }
        if (n == "destroy") { vm.reset(); return done(); }
        if (n == "attach") { w.run([&] { vm->AttachCurrentThread((JNIEnv**)nullptr, nullptr); }); return "\"ok\""; }
        if (n == "detach") { w.run([&] { vm->DetachCurrentThread(); }); return "\"ok\""; }
        if (n == "classes") { auto e = jnivm::VM::FromJavaVM(vm.get())->GetEnv(); for (int i = 0; i < std::stoi(a[0]); ++i) { auto c = e->GetClass(("c/X" + std::to_string(++ncl % 40)).c_str()); if (i % 2) c->Hook(e.get(), "main", [](jint) {}); else c->HookInstanceFunction(e.get(), "main2", [](ENV*, Object*, std::shared_ptr<Arr>) {}); } return "\"ok\""; }
        if (n == "create") {
            int k = std::stoi(a[0]);
            if (a[1] == "shared") FakeJni::createMainMethod(*vm, std::function<void(std::shared_ptr<Arr>)>([this, k](std::shared_ptr<Arr> x) { main(k, x.get(), expected); }));
            else FakeJni::createMainMethod(*vm, std::function<void(Arr*)>([this, k](Arr* x) { main(k, x, expected); }));
            return "\"ok\"";
        }
        if (n == "startd") return start(a[0], [&] { vm->start(); });
        if (n == "start") {
            std::vector<std::string> v; std::stringstream ss(a[1]); std::string t; if (a[1] != "-" || true) while (std::getline(ss, t, ',')) v.push_back(t);
            if (a[1] == "-") v.clear();
            return start(a[0], [&] { auto x = std::make_shared<Arr>((jsize)v.size()); for (size_t i = 0; i < v.size(); ++i) (*x)[(jint)i] = std::make_shared<jnivm::String>(v[i]); vm->start(x); });
        }
        return "\"?\"";
    }
};
vf::World* vf_make_world() { return new LibWorld; }
std::string vf_fini() { return vf::Obj().end(); }
