// Replayer for Contexts.tla (C18).
#include "vf.h"
#include "workers.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <fake-jni/fake-jni.h>
using vf::Args;
int vf_op_timeout = 20;
struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
static std::map<std::string, int> g_live;
struct Thing : FakeJni::JObject { DEFINE_CLASS_NAME("c/Thing") std::string n; Thing(const std::string& n) : n(n) { g_live[n]++; } ~Thing() { g_live[n]--; } };
BEGIN_NATIVE_DESCRIPTOR(Thing) END_NATIVE_DESCRIPTOR
struct Scope { std::unique_ptr<FakeJni::JniEnvContext> ctx; std::unique_ptr<FakeJni::LocalFrame> frame; };
struct Thread { std::unique_ptr<vf::Worker> w; std::vector<Scope> st; };
struct ContextsWorld : vf::World {
    std::map<std::string, std::unique_ptr<VJvm>> vm; std::map<std::string, Thread> th; std::vector<std::string> vms, objs; bool strict = false;
    void on(const std::string& t, std::function<void()> f) { th[t].w->run(f); }
    ~ContextsWorld() {
        for (auto& t : th) t.second.w->run([&] { while (!t.second.st.empty()) t.second.st.pop_back(); });
        for (auto& t : th) t.second.w->finish();
        vm.clear();
    }
    std::string current() { auto e = FakeJni::JniEnv::getCurrentEnv(); if (!e) return ""; for (auto& v : vm) if (v.second && &e->getVM() == v.second.get()) return v.first; return "?"; }
    std::string state(const std::string& r) {
        vf::Obj e, l;
        for (auto& t : th) { std::string c; on(t.first, [&] { c = current(); }); e.t(t.first, c); }
        for (auto& o : objs) l.i(o, g_live[o]);
        vf::Obj x; x.t("r", r).raw("env", e.end());
        return x.raw("live", l.end()).end();
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") { // mode threads / vms / objects
            g_live.clear(); strict = a[0] == "strict"; int part = 0;
            for (size_t i = 1; i < a.size(); ++i) { if (a[i] == "/") part++; else if (part == 0) th[a[i]].w.reset(new vf::Worker); else if (part == 1) vms.push_back(a[i]); else objs.push_back(a[i]); }
            return "0";
        }
        std::string r = "ok"; auto& t = th.at(a[0]);
        on(a[0], [&] {
            try {
                if (n == "create") vm[a[1]].reset(new VJvm(strict));
                else if (n == "destroy") vm[a[1]].reset();
                else if (n == "attach") {
                    auto before = FakeJni::JniEnv::getCurrentEnv(); JNIEnv* e = nullptr; auto& v = *vm[a[1]]; jint rc;
                    if (a[2] == "attach") rc = v.AttachCurrentThread(&e, nullptr); else if (a[2] == "daemon") rc = v.AttachCurrentThreadAsDaemon(&e, nullptr); else rc = static_cast<JavaVM&>(v).GetEnv((void**)&e, JNI_VERSION_1_6);
                    auto now = FakeJni::JniEnv::getCurrentEnv();
                    if (rc != JNI_OK || !now || !e || jnivm::ENV::FromJNIEnv(e) != static_cast<jnivm::ENV*>(now)) r = "wrong environment"; else r = before == now ? "same" : "new";
                }
                else if (n == "detach") vm[a[1]]->DetachCurrentThread();
                else if (n == "open") {
                    Scope s; 
                    if (a[2] == "ctx") { if (a[1] == "-") s.ctx.reset(new FakeJni::JniEnvContext()); else s.ctx.reset(new FakeJni::JniEnvContext(*vm[a[1]])); }
                    else { if (a[1] == "-") s.frame.reset(new FakeJni::LocalFrame()); else s.frame.reset(new FakeJni::LocalFrame(*vm[a[1]], (int)t.st.size())); }
                    t.st.push_back(std::move(s));
                    auto& x = t.st.back(); auto& e = (x.ctx ? *x.ctx : *x.frame).getJniEnv();
                    if (&e != FakeJni::JniEnv::getCurrentEnv()) r = "environment of another thread";
                }
                else if (n == "close") t.st.pop_back();
                else if (n == "make") FakeJni::JniEnv::getCurrentEnv()->createLocalReference(std::make_shared<Thing>(a[1]));
            } catch (std::exception& e) { r = e.what(); }
        });
        if (n == "exit") { t.w->finish(); t.w.reset(new vf::Worker); }
        return state(r);
    }
};
vf::World* vf_make_world() { return new ContextsWorld; }
std::string vf_fini() { return vf::Obj().end(); }
