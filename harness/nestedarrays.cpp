// Replayer for NestedArrays.tla (C13).
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/array.h>
#include <jnivm/extends.h>
#include <jnivm/throwable.h>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object; using jnivm::Array; using jnivm::JNITypes;
int vf_op_timeout = 20;
struct Base : jnivm::Extends<> { long pad = 1; }; struct Sub : jnivm::Extends<Base> { long pad1 = 2; };
using Obj = std::shared_ptr<Object>; using Bases = Array<Array<Base>>; using Objects = Array<Array<Object>>;
static long g_live;
struct NestedWorld : vf::World {
    std::unique_ptr<jnivm::VM> vm; ENV* env; JNIEnv* j; unsigned tick = 0; std::vector<std::string> objs; jclass main;
    std::map<std::string, Obj> held; std::map<std::string, std::weak_ptr<Object>> known;
    NestedWorld() {
        vm.reset(new jnivm::VM); env = vm->GetEnv().get(); j = env->GetJNIEnv();
        env->GetClass<Base>("n/Base"); env->GetClass<Sub>("n/Sub");
        JNITypes<std::shared_ptr<Array<Sub>>>::GetJNISignature(env); JNITypes<std::shared_ptr<Array<Bases>>>::GetJNISignature(env); JNITypes<std::shared_ptr<Array<Array<jint>>>>::GetJNISignature(env);
        auto c = env->GetClass("n/Main"); main = (jclass)c.get();
        c->Hook(env, "read", [](ENV*, Class*, std::shared_ptr<Bases> a, jint i, jint n) -> std::shared_ptr<Base> { std::shared_ptr<Array<Base>> in = (*a)[i]; return (*in)[n]; });
        c->Hook(env, "read", [](ENV*, Class*, std::shared_ptr<Objects> a, jint i, jint n) -> Obj { std::shared_ptr<Array<Object>> in = (*a)[i]; return (*in)[n]; });
        c->Hook(env, "write", [](ENV*, Class*, std::shared_ptr<Bases> a, jint i, jint n, std::shared_ptr<Base> x) { (*(Array<Base>*)(*a)[i])[n] = x; });
        c->Hook(env, "write", [](ENV*, Class*, std::shared_ptr<Objects> a, jint i, jint n, Obj x) { (*(*a)[i])[n] = x; });
        c->Hook(env, "pick", [](ENV*, Class*, std::shared_ptr<Bases> a, jint i) -> std::shared_ptr<Array<Base>> { return (*a)[i]; });
        c->Hook(env, "pick", [](ENV*, Class*, std::shared_ptr<Objects> a, jint i) -> std::shared_ptr<Array<Object>> { return (*a)[i]; });
    }
    ~NestedWorld() { held.clear(); vm.reset(); g_live = 0; for (auto& k : known) g_live += !k.second.expired(); }
    struct Ref { JNIEnv* j; jobject h; char k; ~Ref() { if (k == 'g') j->DeleteGlobalRef(h); if (k == 'w') j->DeleteWeakGlobalRef(h); } operator jobject() { return h; } operator jobjectArray() { return (jobjectArray)h; } };
    Ref ref(const Obj& o, char k) { if (!o) return { j, nullptr, 'l' }; jobject l = JNITypes<Obj>::ToJNIType(env, o); return { j, k == 'g' ? j->NewGlobalRef(l) : k == 'w' ? j->NewWeakGlobalRef(l) : l, k }; }
    char kind() { return "lgw"[++tick % 3]; }
    Obj get(const std::string& x) { return x == "null" ? Obj() : held.at(x); }
    std::string name(jobject h) {
        if (!h) return "null";
        auto o = JNITypes<Obj>::JNICast(env, h); if (!o) return "null";
        for (auto& k : known) if (k.second.lock() == o) return k.first;
        return "?";
    }
    std::string cname(jobject h) {
        auto c = j->GetObjectClass(h); auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(env, c); auto p = cl->nativeprefix;
        return j->IsSameObject(j->FindClass(p.c_str()), c) && j->IsInstanceOf(h, c) ? p : "not " + p;
    }
    std::string done(const std::string& r) {
        vf::Obj w;
        for (auto& o : objs) {
            std::string c = "none"; std::vector<std::string> d;
            j->PushLocalFrame(16);
            if (auto p = known[o].lock()) { auto h = ref(p, kind()); p.reset(); c = cname(h); if (c[0] == '[' && c != "[I") { jsize n = j->GetArrayLength((jobjectArray)h); for (jsize i = 0; i < n; ++i) d.push_back(name(j->GetObjectArrayElement(h, i))); } }
            j->PopLocalFrame(nullptr);
            w.raw(o, vf::Obj().t("c", c).raw("d", vf::sarr(d)).end());
        }
        return vf::Obj().raw("r", r).raw("w", w.end()).end();
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") { objs = a; return "\"ok\""; }
        std::string r;
        j->PushLocalFrame(16);
        try { r = vf::q(op2(n, a)); }
        catch (std::runtime_error& e) { r = std::string(e.what()) == "Class Type Exception" ? "\"rejected\"" : vf::q(e.what()); }
        j->PopLocalFrame(nullptr);
        return done(r);
    }
    static std::string path(const std::string& k) {
        static std::map<std::string, std::string> m = { { "leaf", "n/Base" }, { "sub", "n/Sub" }, { "ints", "[I" }, { "A1", "n/Base" }, { "S1", "n/Sub" }, { "A2", "[Ln/Base;" }, { "A3", "[[Ln/Base;" }, { "I2", "[I" }, { "P1", "n/Plain" }, { "P2", "[Ln/Plain;" }, { "O1", "java/lang/Object" }, { "O2", "[Ljava/lang/Object;" } };
        return m.at(k);
    }
    void keep(const std::string& o, jobject h) { auto p = JNITypes<Obj>::JNICast(env, h); known[o] = p; held[o] = p; }
    std::string op2(const std::string& n, const Args& a) {
        auto num = [&](int i) { return std::stoi(a[i]); };
        if (n == "make") {
            if (a[1] == "ints") { keep(a[0], j->NewIntArray(2)); return "ok"; }
            Obj p; if (a[1] == "leaf") p = std::make_shared<Base>(); else p = std::make_shared<Sub>();
            known[a[0]] = held[a[0]] = p; return "ok";
        }
        if (n == "new") {
            auto x = ref(get(a[3]), kind()); jclass c = a[4] == "obj" ? j->GetObjectClass(x) : j->FindClass(path(a[1]).c_str());
            auto h = j->NewObjectArray(num(2), c, x); keep(a[0], h); return cname(h);
        }
        if (n == "release") { held.erase(a[0]); return "ok"; }
        auto h = ref(get(a[0]), n == "put" ? a[3][0] : n == "get" ? a[2][0] : kind());
        if (n == "put") { auto x = ref(get(a[2]), kind()); j->SetObjectArrayElement(h, num(1), x); return "stored"; }
        if (n == "get") return name(j->GetObjectArrayElement(h, num(1)));
        if (n == "take") { auto x = j->GetObjectArrayElement(h, num(1)); auto nm = name(x); held[nm] = JNITypes<Obj>::JNICast(env, x); return nm; }
        if (n == "is") { auto p = path(a[1]); if (a[1].size() == 2) p = p[0] == '[' ? "[" + p : "[L" + p + ";"; return j->IsInstanceOf(h, j->FindClass(p.c_str())) ? "yes" : "no"; }
        bool o = cname(h) == "[[Ljava/lang/Object;"; std::string t = o ? "[[Ljava/lang/Object;" : "[[Ln/Base;", e = o ? "Ljava/lang/Object;" : "Ln/Base;";
        if (n == "nread") return name(j->CallStaticObjectMethod(main, j->GetStaticMethodID(main, "read", ("(" + t + "II)" + e).c_str()), (jobject)h, num(1), num(2)));
        if (n == "npick") return name(j->CallStaticObjectMethod(main, j->GetStaticMethodID(main, "pick", ("(" + t + "I)[" + e).c_str()), (jobject)h, num(1)));
        if (n == "nwrite") {
            auto x = ref(get(a[3]), kind());
            j->CallStaticVoidMethod(main, j->GetStaticMethodID(main, "write", ("(" + t + "II" + e + ")V").c_str()), (jobject)h, num(1), num(2), (jobject)x);
            auto ex = (jnivm::Throwable*)(Object*)j->ExceptionOccurred(); if (!ex) return "stored";
            auto p = ex->except; j->ExceptionClear(); std::rethrow_exception(p);
        }
        return "?";
    }
};
vf::World* vf_make_world() { return new NestedWorld; }
std::string vf_fini() { return vf::Obj().i("leak", g_live).end(); }
