// Replayer for ObjArrays.tla (C13).
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/array.h>
#include <jnivm/extends.h>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object; using jnivm::Array;
int vf_op_timeout = 20;
static std::map<std::string, int> g_alive;
struct Tag { std::string n; ~Tag() { if (n.size()) g_alive[n]--; } };
struct Base : jnivm::Extends<> { long pad0 = 1; Tag tag; }; struct Mid : jnivm::Extends<Base> { long pad1 = 2; }; struct Leaf : jnivm::Extends<Mid> { long pad2 = 3; }; struct Side : jnivm::Extends<Base> { long pad3 = 4; };
struct Other : jnivm::Extends<> { long pad = 5; Tag tag; };
using Obj = std::shared_ptr<Object>;
template<class T> Array<T>* view(Array<Object>* a) { return dynamic_cast<Array<T>*>(a); }
struct ObjWorld : vf::World {
    std::unique_ptr<jnivm::VM> vm; ENV* env; JNIEnv* j; unsigned tick = 0; std::vector<std::string> slots, objs;
    std::map<std::string, Obj> held; std::map<std::string, Object*> ptr;
    struct Slot { std::string e = "none"; std::shared_ptr<Array<Object>> n; jobject g = nullptr; };
    std::map<std::string, Slot> sl;
    ObjWorld() {
        vm.reset(new jnivm::VM); env = vm->GetEnv().get(); j = env->GetJNIEnv(); g_alive.clear();
        env->GetClass<Base>("o/Base"); env->GetClass<Mid>("o/Mid"); env->GetClass<Leaf>("o/Leaf"); env->GetClass<Side>("o/Side"); env->GetClass<Other>("o/Other");
        // arrays of these classes are used natively
        jnivm::JNITypes<std::shared_ptr<Array<Base>>>::GetJNISignature(env); jnivm::JNITypes<std::shared_ptr<Array<Mid>>>::GetJNISignature(env); jnivm::JNITypes<std::shared_ptr<Array<Leaf>>>::GetJNISignature(env);
        jnivm::JNITypes<std::shared_ptr<Array<Side>>>::GetJNISignature(env); jnivm::JNITypes<std::shared_ptr<Array<Other>>>::GetJNISignature(env);
    }
    ~ObjWorld() { held.clear(); for (auto& s : sl) if (s.second.g) j->DeleteGlobalRef(s.second.g); sl.clear(); vm.reset(); }
    struct Ref { JNIEnv* j; jobject l, h; char k; ~Ref() { if (k == 'g') j->DeleteGlobalRef(h); if (k == 'w') j->DeleteWeakGlobalRef(h); } };
    Ref ref(Obj o, char k) { if (!o) return { j, nullptr, nullptr, 'l' };
        jobject l = jnivm::JNITypes<Obj>::ToJNIType(env, o); return { j, l, k == 'g' ? j->NewGlobalRef(l) : k == 'w' ? j->NewWeakGlobalRef(l) : l, k }; }
    Ref sref(Slot& s, char k) {
        jobject l = s.n ? jnivm::JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(env, s.n) : j->NewLocalRef(s.g);
        return { j, l, k == 'g' ? j->NewGlobalRef(l) : k == 'w' ? j->NewWeakGlobalRef(l) : l, k };
    }
    std::string name(Object* o) { if (!o) return "null"; for (auto& p : ptr) if (p.second == o && g_alive[p.first] > 0) return p.first; return "?"; }
    std::string name(jobject h) { return name(jnivm::JNITypes<Obj>::JNICast(env, h).get()); }
    char kind() { return "lgw"[++tick % 3]; }
    std::string done(const std::string& r) {
        vf::Obj a, l;
        for (auto& n : slots) {
            auto& s = sl[n]; std::vector<std::string> d;
            if (s.e != "none") {
                j->PushLocalFrame(8);
                { auto h = sref(s, kind()); jsize len = j->GetArrayLength((jarray)h.h); for (jsize i = 0; i < len; ++i) d.push_back(name(j->GetObjectArrayElement((jobjectArray)h.h, i))); }
                j->PopLocalFrame(nullptr);
            }
            a.raw(n, vf::Obj().t("e", s.e).raw("d", vf::sarr(d)).end());
        }
        for (auto& o : objs) l.b(o, g_alive[o] > 0);
        return vf::Obj().raw("r", r).raw("w", vf::Obj().raw("arr", a.end()).raw("alive", l.end()).end()).end();
    }
    template<class T> std::string nput(Slot& s, int i, Obj o, const std::string& how) {
        auto h = sref(s, kind()); auto arr = jnivm::JNITypes<std::shared_ptr<Array<T>>>::JNICast(env, h.h); auto t = std::dynamic_pointer_cast<T>(o); T* p = t.get();
        o.reset();
        if (how == "shared") (*arr)[i] = t;
        else { t.reset(); if (how == "raw") (*arr)[i] = p; else (*arr)[i] = *p; } // nobody else needs to hold it
        return "\"stored\"";
    }
    template<class T> std::string nget(Slot& s, int i, const std::string& how) {
        auto h = sref(s, kind()); auto arr = jnivm::JNITypes<std::shared_ptr<Array<T>>>::JNICast(env, h.h);
        if (how == "shared") { std::shared_ptr<T> p = (*arr)[i]; return vf::q(name(p.get())); }
        if (how == "raw") { T* p = (*arr)[i]; bool b = (*arr)[i]; return vf::q(b == (p != nullptr) ? name(p) : "bool"); }
        const Array<T>& c = *arr; std::shared_ptr<T> p = c[i]; return vf::q(name(p.get()));
    }
    template<class F> std::string as(const std::string& v, F f) {
        if (v == "Object") return f((Object*)0); if (v == "Base") return f((Base*)0); if (v == "Mid") return f((Mid*)0); if (v == "Leaf") return f((Leaf*)0); if (v == "Side") return f((Side*)0); return f((Other*)0);
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") { size_t i = 0; for (; a[i] != "/"; ++i) slots.push_back(a[i]); for (++i; i < a.size(); ++i) objs.push_back(a[i]); return "\"ok\""; }
        std::string r = "\"ok\"";
        j->PushLocalFrame(8);
        try { r = op2(n, a); }
        catch (std::runtime_error& e) { r = std::string(e.what()) == "Class Type Exception" ? "\"rejected\"" : vf::q(e.what()); }
        j->PopLocalFrame(nullptr);
        return done(r);
    }
    std::string op2(const std::string& n, const Args& a) {
        if (n == "make") {
            auto mk = [&](auto p) { p->tag.n = a[0]; held[a[0]] = p; ptr[a[0]] = p.get(); };
            if (a[1] == "Base") mk(std::make_shared<Base>()); if (a[1] == "Mid") mk(std::make_shared<Mid>()); if (a[1] == "Leaf") mk(std::make_shared<Leaf>()); if (a[1] == "Side") mk(std::make_shared<Side>()); if (a[1] == "Other") mk(std::make_shared<Other>());
            g_alive[a[0]]++; return "\"ok\"";
        }
        if (n == "release") { held.erase(a[0]); return "\"ok\""; }
        auto& s = sl[a[0]];
        auto obj = [&](const std::string& x) { return x == "null" ? Obj() : held.at(x); };
        if (n == "new") {
            jclass c = j->FindClass(a[1] == "Object" ? "java/lang/Object" : ("o/" + a[1]).c_str());
            jobjectArray x; { auto o = ref(obj(a[3]), a[4][0]); x = j->NewObjectArray(std::stoi(a[2]), c, o.h); }
            auto cl = jnivm::JNITypes<std::shared_ptr<Class>>::JNICast(env, j->GetObjectClass(x));
            s.e = a[1]; s.g = j->NewGlobalRef(x); j->DeleteLocalRef(x);
            return vf::q(j->IsSameObject(j->FindClass(cl->nativeprefix.c_str()), (jobject)cl.get()) ? cl->nativeprefix : "?");
        }
        if (n == "nnew") { int len = std::stoi(a[2]); as(a[1], [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; s.n = std::make_shared<Array<T>>(len); return std::string(); }); s.e = a[1]; return "\"ok\""; }
        if (n == "drop") { s.e = "none"; s.n.reset(); if (s.g) j->DeleteGlobalRef(s.g); s.g = nullptr; return "\"ok\""; }
        if (n == "put") { auto o = ref(obj(a[2]), a[3][0]); auto h = sref(s, kind()); j->SetObjectArrayElement((jobjectArray)h.h, std::stoi(a[1]), o.h); return "\"stored\""; }
        if (n == "get") { auto h = sref(s, a[2][0]); return vf::q(name(j->GetObjectArrayElement((jobjectArray)h.h, std::stoi(a[1])))); }
        if (n == "take") { auto h = sref(s, kind()); auto o = jnivm::JNITypes<Obj>::JNICast(env, j->GetObjectArrayElement((jobjectArray)h.h, std::stoi(a[1]))); auto nm = name(o.get()); held[nm] = o; return vf::q(nm); }
        if (n == "nput") return as(a[1], [&](auto* p) { return nput<std::remove_pointer_t<decltype(p)>>(s, std::stoi(a[2]), obj(a[3]), a[4]); });
        if (n == "nget") return as(a[1], [&](auto* p) { return nget<std::remove_pointer_t<decltype(p)>>(s, std::stoi(a[2]), a[3]); });
        return "\"?\"";
    }
};
vf::World* vf_make_world() { return new ObjWorld; }
std::string vf_fini() { int n = 0; for (auto& a : g_alive) n += a.second; return vf::Obj().i("leak", n).end(); }
