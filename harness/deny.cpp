// Replayer for Deny.tla (C17).
#include "vf.h"
#include "workers.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/extends.h>
#include <baron/baron.h>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object;
int vf_op_timeout = 20;
struct DE : jnivm::Extends<Object> { jint xI = 0, aI = 0; jlong xJ = 0, aJ = 0; };
struct DS : jnivm::Extends<DE> {};
struct NY : FakeJni::JObject { DEFINE_CLASS_NAME("P/Y") };
BEGIN_NATIVE_DESCRIPTOR(NY) END_NATIVE_DESCRIPTOR
struct DenyWorld : vf::World {
    std::unique_ptr<Baron::Jvm> vm; vf::Worker w; std::map<std::string, jclass> cls; std::map<std::string, void*> ids, cids; int ticket = 0;
    ~DenyWorld() { w.run([&] { if (vm && FakeJni::JniEnv::getCurrentEnv()) vm->DetachCurrentThread(); }); vm.reset(); }
    static std::string e(const std::string& s) { return s == "-" ? "" : s; }
    ENV* env() { return jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); }
    // fn is run with an environment of the thread of the VM, or of another thread
    void with(bool other, std::function<void(JNIEnv*)> fn) {
        auto go = [&] { JNIEnv* j = nullptr; vm->AttachCurrentThread(&j, nullptr); j->PushLocalFrame(8); fn(j); j->PopLocalFrame(nullptr); };
        if (other) w.run(go); else go();
    }
    int identity(std::map<std::string, void*>& m, const std::string& key, void* p) {
        auto f = m.find(key); if (f != m.end()) return f->second == p ? 1 : -1;
        for (auto& x : m) if (x.second == p) return -2;
        m[key] = p; return 1;
    }
    void* lookup(JNIEnv* j, char k, const std::string& c, const std::string& n, const std::string& s) {
        auto cl = cls.at(c);
        switch (k) {
        case 'm': case 'c': return j->GetMethodID(cl, n.c_str(), s.c_str()); case 's': return j->GetStaticMethodID(cl, n.c_str(), s.c_str());
        case 'f': return j->GetFieldID(cl, n.c_str(), s.c_str()); default: return j->GetStaticFieldID(cl, n.c_str(), s.c_str());
        }
    }
    void hook(char k, const std::string& c, const std::string& n, const std::string& s) {
        auto E = env(); auto cl = E->GetClass(c.c_str());
        bool i = s == "(I)V" || s == "I";
        if (k == 'm') { if (i) cl->HookInstanceFunction(E, n, [](ENV*, Object*, jint) {}); else cl->HookInstanceFunction(E, n, [](ENV*, Object*) {}); }
        else if (k == 's') { if (i) cl->Hook(E, n, [](ENV*, Class*, jint) {}); else cl->Hook(E, n, [](ENV*, Class*) {}); }
        else if (k == 'c' && c == "p/E") { if (i) cl->Hook(E, n, [](jint) { return std::make_shared<DE>(); }); else cl->Hook(E, n, []() { return std::make_shared<DE>(); }); }
        else if (k == 'c') { if (i) cl->Hook(E, n, [](jint) { return std::make_shared<DS>(); }); else cl->Hook(E, n, []() { return std::make_shared<DS>(); }); }
        else if (k == 'f') { if (i) cl->HookInstanceGetterFunction(E, n, [](ENV*, Object*) -> jint { return 1; }); else cl->HookInstanceGetterFunction(E, n, [](ENV*, Object*) -> jlong { return 1; }); }
        else { if (i) cl->HookGetterFunction(E, n, [](ENV*, Class*) -> jint { return 1; }); else cl->HookGetterFunction(E, n, [](ENV*, Class*) -> jlong { return 1; }); }
    }
    void deny(const std::string& g, const std::string& n, const std::string& s, const std::string& c, bool alias) {
        // the class part is optional
        if (g == "m") { if (alias) { if (c.empty()) vm->blacklistMethod(n.c_str(), s.c_str()); else vm->blacklistMethod(n.c_str(), s.c_str(), c.c_str()); }
                        else { if (c.empty()) vm->denyMethod(n.c_str(), s.c_str()); else vm->denyMethod(n.c_str(), s.c_str(), c.c_str()); } }
        else { if (alias) { if (c.empty()) vm->blacklistField(n.c_str(), s.c_str()); else vm->blacklistField(n.c_str(), s.c_str(), c.c_str()); }
               else { if (c.empty()) vm->denyField(n.c_str(), s.c_str()); else vm->denyField(n.c_str(), s.c_str(), c.c_str()); } }
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") {
            vm.reset(a[0] == "setup" ? new Baron::Jvm([](Baron::Jvm*) {}) : new Baron::Jvm());
            auto E = env(); auto j = E->GetJNIEnv();
            E->GetClass<DE>("p/E"); E->GetClass<DS>("p/S");
            for (auto c : { "p/E", "p/S" }) cls[c] = (jclass)j->NewGlobalRef(j->FindClass(c));
            if (a[1] == "attached") with(true, [](JNIEnv*) {});
            return "0";
        }
        if (n == "lookup") { void* p = nullptr; with(a[4] == "1", [&](JNIEnv* j) { p = lookup(j, a[0][0], a[1], a[2], a[3]); }); return std::to_string(p ? identity(ids, a[0] + (a[5] == "-" ? a[1] : a[5]) + " " + a[2] + a[3], p) : 0); }
        if (n == "hook") { hook(a[0][0], a[1], a[2], a[3]); return "0"; }
        if (n == "deny") { deny(a[0], e(a[1]), e(a[2]), e(a[3]), a[4] == "1"); return "0"; }
        if (n == "ask") {
            auto c = e(a[3]); bool x, y;
            if (a[0] == "m") { x = c.empty() ? vm->isMethodDenied(a[1].c_str(), a[2].c_str()) : vm->isMethodDenied(a[1].c_str(), a[2].c_str(), c.c_str()); y = vm->isMethodBlacklisted(a[1].c_str(), a[2].c_str(), c.c_str()); }
            else { x = c.empty() ? vm->isFieldDenied(a[1].c_str(), a[2].c_str()) : vm->isFieldDenied(a[1].c_str(), a[2].c_str(), c.c_str()); y = vm->isFieldBlacklisted(a[1].c_str(), a[2].c_str(), c.c_str()); }
            return x == y ? std::to_string(x) : "-1";
        }
        if (n == "find") {
            int r = 0;
            if (a[1] == "native") { auto c = static_cast<FakeJni::Jvm*>(vm.get())->findClass(a[0].c_str()); r = c ? (c->nativeprefix == a[0] ? identity(cids, a[0], c.get()) : -3) : 0; }
            else with(a[1] == "thread", [&](JNIEnv* j) { auto c = j->FindClass(a[0].c_str()); r = c ? identity(cids, a[0], jnivm::JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(j), c).get()) : 0; });
            return std::to_string(r);
        }
        if (n == "denyc") { if (a[1] == "1") vm->blacklistClass(a[0].c_str()); else vm->denyClass(a[0].c_str()); return "0"; }
        if (n == "askc") { bool x = vm->isClassDenied(a[0].c_str()); return x == vm->isClassBlacklisted(a[0].c_str()) ? std::to_string(x) : "-1"; }
        if (n == "create") return std::to_string(identity(cids, a[0], env()->GetClass(a[0].c_str()).get()));
        if (n == "register") { vm->registerClass<NY>(); return std::to_string(identity(cids, a[0], NY::getDescriptor().get())); }
        if (n == "mention") {
            auto t = std::to_string(ticket++); auto sig = "(L" + a[0] + ";)V"; auto name = "mentions" + t; auto j = env()->GetJNIEnv();
            if (a[1] == "denied") { // under a rule for just this name the signature is not looked at
                vm->denyMethod(name.c_str(), "", ""); vm->denyField(name.c_str(), "", "");
                return !j->GetMethodID(cls["p/E"], name.c_str(), sig.c_str()) && !j->GetStaticMethodID(cls["p/S"], name.c_str(), sig.c_str()) && !j->GetFieldID(cls["p/E"], name.c_str(), ("L" + a[0] + ";").c_str()) ? "1" : "0";
            }
            auto f = "L" + a[0] + ";"; void* p = ticket % 3 == 0 ? (void*)j->GetMethodID(cls["p/E"], name.c_str(), sig.c_str()) : ticket % 3 == 1 ? (void*)j->GetStaticMethodID(cls["p/S"], name.c_str(), ("()" + f).c_str()) : (void*)j->GetFieldID(cls["p/E"], name.c_str(), f.c_str());
            return p ? "1" : "0";
        }
        return "\"?\"";
    }
};
vf::World* vf_make_world() { return new DenyWorld; }
std::string vf_fini() { return vf::Obj().end(); }
