// Replayer for FieldBind.tla (C10).
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/extends.h>
#include <fake-jni/fake-jni.h>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object; using jnivm::String; using jnivm::Array;
int vf_op_timeout = 20;
struct Other : jnivm::Extends<> { int pad = 0; };
struct FB : jnivm::Extends<> { int pad = 1; };
struct FD : jnivm::Extends<FB> { int pad2 = 2; };
using Str = std::shared_ptr<String>; using Oth = std::shared_ptr<Other>; using Arr = std::shared_ptr<Array<jint>>;
struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
static std::vector<std::string> g_calls;
template<class T> struct Vals { static T v[3]; };
template<> jint Vals<jint>::v[3] = { 0, -2147483647 - 1, 0x12345678 }; template<> jlong Vals<jlong>::v[3] = { 0, (jlong)0x8000000000000001ull, 0x123456789abcdef0ll };
template<> Str Vals<Str>::v[3] = {}; template<> Oth Vals<Oth>::v[3] = {}; template<> Arr Vals<Arr>::v[3] = {};
template<class T> int idx(const T& x) { for (int i = 1; i < 3; ++i) if (x == Vals<T>::v[i]) return i; return 0; } // the default of an unbound field may be a new object
template<class T> struct AccB { // the accessors of one kind, name, type and version
    static std::map<std::string, T> cells;
};
template<class T> std::map<std::string, T> AccB<T>::cells;
template<class T> T& cell(const std::string& n) { return AccB<T>::cells[n]; }
struct Slot { std::string kind, type; jfieldID id = nullptr; };
struct BindWorld : vf::World {
    std::unique_ptr<VJvm> vm; ENV* env = nullptr; JNIEnv* j = nullptr; std::map<std::string, std::shared_ptr<Class>> cls; std::shared_ptr<Object> objs[2];
    std::map<std::string, Slot> h; std::vector<std::string> all; unsigned tick = 0;
    ~BindWorld() { g_calls.clear(); wipe<jint>(); wipe<jlong>(); wipe<Str>(); wipe<Oth>(); wipe<Arr>(); objs[0].reset(); objs[1].reset(); cls.clear(); vm.reset(); }
    template<class T> void wipe() { AccB<T>::cells.clear(); for (int i = 1; i < 3 && !std::is_arithmetic<T>::value; ++i) Vals<T>::v[i] = T{}; }
    template<class F> auto as(const std::string& t, F f) {
        switch (t[0]) { case 'I': return f((jint*)0); case 'J': return f((jlong*)0); case 'L': return f((Str*)0); case 'O': return f((Oth*)0); default: return f((Arr*)0); }
    }
    const char* sig(const std::string& t) { return t == "I" ? "I" : t == "J" ? "J" : t == "L" ? "Ljava/lang/String;" : t == "O" ? "Lf/Other;" : "[I"; }
    std::string done(int r) {
        vf::Obj c;
        for (auto& n : all) as(n.substr(n.rfind('.') - 1, 1), [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; c.i(n, idx<T>(cell<T>(n))); return 0; });
        std::string s = vf::Obj().i("r", r).raw("calls", vf::sarr(g_calls)).raw("cells", c.end()).end();
        g_calls.clear();
        return s;
    }
    template<class T> void hook(const std::string& n, const Args& a) {
        auto c = cls.at(a[0]); std::string cell_ = a[0] + "." + a[1] + "." + a[2] + "." + a[3] + "." + (n == "hookvar" ? "1" : a[4]);
        T& st = cell<T>(cell_);
        ENV* en = env;
        if (n == "hookvar") { // only variables with a fixed place can be hooked: one per kind, name and type, chosen by the cell
            hookvar<T>(c, a[1], a[2], &st, cell_);
        } else if (n == "hookget") {
            auto f = [cell_, en, &st](ENV* e) -> T { g_calls.push_back((e == en ? "get " : "wrong environment ") + cell_); return st; };
            if (a[1] == "i") c->HookInstanceGetterFunction(env, a[2], [f, this](ENV* e, Object* o) -> T { known(o); return f(e); });
            else c->HookGetterFunction(env, a[2], [f](ENV* e, Class*) -> T { return f(e); });
        } else {
            auto f = [cell_, en, &st](ENV* e, T v) { g_calls.push_back((e == en ? "set " : "wrong environment ") + cell_); st = v; };
            if (a[1] == "i") c->HookInstanceSetterFunction(env, a[2], [f, this](ENV* e, Object* o, T v) { known(o); f(e, v); });
            else c->HookSetterFunction(env, a[2], [f](ENV* e, Class*, T v) { f(e, v); });
        }
    }
    void known(Object* o) { if (o != objs[0].get() && o != objs[1].get()) g_calls.push_back("wrong object"); }
    template<class T> void hookvar(std::shared_ptr<Class> c, const std::string& kind, const std::string& name, T* at, const std::string&) {
        if (kind == "i") c->HookInstance(env, name, std::move(at)); else c->Hook(env, name, std::move(at));
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") {
            vm.reset(new VJvm(a[0] == "strict")); env = jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); j = env->GetJNIEnv();
            for (int i = 1; i < 3; ++i) { Vals<Str>::v[i] = std::make_shared<String>("s" + std::to_string(i)); Vals<Oth>::v[i] = std::make_shared<Other>(); Vals<Arr>::v[i] = std::make_shared<Array<jint>>(i); }
            env->GetClass<Other>("f/Other"); cls["B"] = env->GetClass<FB>("f/B"); cls["D"] = env->GetClass<FD>("f/D");
            objs[0] = std::make_shared<FB>(); objs[1] = std::make_shared<FD>();
            // the rest: classes / kinds / names / types / versions, which name the cells
            std::vector<std::string> pre(1); bool dot = false;
            for (size_t i = 1; i < a.size(); ) { std::vector<std::string> nx; for (; i < a.size() && a[i] != "/"; ++i) for (auto& q : pre) nx.push_back(q + (dot ? "." : "") + a[i]); ++i; dot = true; pre = nx; }
            all = pre;
            return "\"ok\"";
        }
        j->PushLocalFrame(8);
        int r = 0;
        if (n.compare(0, 4, "hook") == 0) as(a[3], [&](auto* p) { hook<std::remove_pointer_t<decltype(p)>>(n, a); return 0; });
        else if (n == "find") {
            auto& s = h[a[0]]; s.kind = a[2]; s.type = a[4];
            auto l = jnivm::JNITypes<std::shared_ptr<Class>>::ToJNIType(env, cls.at(a[1])), c = ++tick % 2 ? (jclass)j->NewGlobalRef(l) : l;
            std::string nm = a[3], sg = sig(a[4]); // the names need not outlive the call
            s.id = a[2] == "s" ? j->GetStaticFieldID(c, nm.c_str(), sg.c_str()) : j->GetFieldID(c, nm.c_str(), sg.c_str());
            if (tick % 2) j->DeleteGlobalRef(c);
            r = s.id != nullptr;
        } else if (n == "same") r = h[a[0]].id == h[a[1]].id;
        else as(h[a[0]].type, [&](auto* p) { r = access<std::remove_pointer_t<decltype(p)>>(n, h[a[0]], a.size() > 1 ? std::stoi(a[1]) : 0); return 0; });
        j->PopLocalFrame(nullptr);
        return done(r);
    }
    jobject obj(unsigned k) { return jnivm::JNITypes<std::shared_ptr<Object>>::ToJNIType(env, objs[k % 2]); }
    template<class T> int access(const std::string& n, Slot& s, int v) {
        // an inherited field may be used through objects of both classes
        jobject o = obj(++tick); auto c = jnivm::JNITypes<std::shared_ptr<Class>>::ToJNIType(env, cls[tick % 2 ? "B" : "D"]);
        bool st = s.kind == "s"; auto f = s.id; const T& x = Vals<T>::v[v];
        return acc<T>(n == "get", st, o, c, f, x);
    }
    template<class T> std::enable_if_t<std::is_same<T, jint>::value, int> acc(bool g, bool st, jobject o, jclass c, jfieldID f, T x) {
        if (g) return idx<T>(st ? j->GetStaticIntField(c, f) : j->GetIntField(o, f)); if (st) j->SetStaticIntField(c, f, x); else j->SetIntField(o, f, x); return 0; }
    template<class T> std::enable_if_t<std::is_same<T, jlong>::value, int> acc(bool g, bool st, jobject o, jclass c, jfieldID f, T x) {
        if (g) return idx<T>(st ? j->GetStaticLongField(c, f) : j->GetLongField(o, f)); if (st) j->SetStaticLongField(c, f, x); else j->SetLongField(o, f, x); return 0; }
    template<class T> std::enable_if_t<!std::is_arithmetic<T>::value, int> acc(bool g, bool st, jobject o, jclass c, jfieldID f, T x) {
        if (g) { jobject r = st ? j->GetStaticObjectField(c, f) : j->GetObjectField(o, f); auto b = jnivm::JNITypes<std::shared_ptr<Object>>::JNICast(env, r); return idx<T>(std::dynamic_pointer_cast<typename T::element_type>(b)); }
        jobject l = x ? jnivm::JNITypes<T>::ToJNIType(env, x) : nullptr, w = l && tick % 3 == 0 ? j->NewGlobalRef(l) : l;
        if (st) j->SetStaticObjectField(c, f, w); else j->SetObjectField(o, f, w);
        if (w != l) j->DeleteGlobalRef(w);
        return 0;
    }
};
vf::World* vf_make_world() { return new BindWorld; }
std::string vf_fini() { return vf::Obj().end(); }
