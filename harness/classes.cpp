// Replayer for Classes.tla (C04) and Hierarchy.tla (C06).
#include "vf.h"
#include "workers.h"
#include <jnivm.h>
#include <fake-jni/fake-jni.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/extends.h>
using jnivm::ENV; using jnivm::Object; using jnivm::Extends; using jnivm::JNITypes; using jnivm::Class;
using vf::Args;
int vf_op_timeout = 20;

struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
struct TX : Extends<Object> {};
struct TXY : Extends<Object> {};
struct TP : Extends<Object> {};

// declared hierarchy of Hierarchy.tla
struct HA : Extends<Object> {};
struct HB : Extends<HA> {};
struct HC : Extends<HB> {};
struct HI : Extends<Object> {};
struct HD : Extends<HA, HI> {};
struct HF : Extends<HB, HD> {};
struct HJ : Extends<HI> {};

struct ClassesWorld : vf::World {
    std::unique_ptr<VJvm> vm;
    std::unique_ptr<vf::Worker> other;
    std::vector<std::string> names;
    std::map<std::string, Class*> seen;
    std::string hier_op(const std::string& n, const Args& a);
    std::map<std::string, jclass> hc;     // registered classes
    std::map<std::string, jobject> obj;   // reference kind -> reference of the current object

    ~ClassesWorld() {
        if (other) { other->run([&] { vm->DetachCurrentThread(); }); other->finish(); }
        vm.reset();
    }
    int identity(const std::string& n, Class* c) {
        if (!c) return 0;
        auto f = seen.find(n);
        if (f != seen.end()) return f->second == c ? 1 : -1;
        for (auto& s : seen) if (s.second == c) return -2;
        seen[n] = c;
        return 1;
    }
    std::string res(const std::string& n, Class* c) {
        vf::Obj o;
        o.i("r", identity(n, c)).t("name", c ? c->getName() : "");
        vf::Obj k; auto all = vm->getClasses();
        for (auto& x : names) {
            auto f = vm->findClass(x.c_str());
            int id = identity(x, f.get());
            if (f && f->getName() != x) id = -3;
            // the list of all classes has every known class once
            int listed = 0; for (auto& y : all) if (y && y->getName() == x) { ++listed; if (y != f) id = -4; }
            if (listed != (f ? 1 : 0)) id = -4;
            k.i(x, id);
        }
        return o.raw("known", k.end()).end();
    }
    Class* native(JNIEnv* j, jclass c) { return JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(j), c).get(); }
    ENV* env() { return jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); }
    std::shared_ptr<Class> reg(const std::string& n) {
        if (n == "a/X") return env()->GetClass<TX>("a/X");
        if (n == "a/X$Y") return env()->GetClass<TXY>("a/X$Y");
        if (n == "X") return env()->GetClass<TP>("X");
        throw std::runtime_error("no native type for " + n);
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") {
            vm.reset(new VJvm(a[0] == "strict"));
            for (size_t i = 1; i < a.size(); ++i) names.push_back(a[i]);
            return "{}";
        }
        auto j = env()->GetJNIEnv();
        struct Frame { JNIEnv* j; Frame(JNIEnv* j) : j(j) { j->PushLocalFrame(8); } ~Frame() { j->PopLocalFrame(nullptr); } };
        if (n[0] != 'h') {
            Frame frame(j);
            if (n == "find") {
                if (a[1] == "0") return res(a[0], native(j, j->FindClass(a[0].c_str())));
                if (!other) other.reset(new vf::Worker());
                Class* c = nullptr;
                other->run([&] {
                    JNIEnv* e; vm->AttachCurrentThread(&e, nullptr);
                    Frame f(e);
                    c = native(e, e->FindClass(a[0].c_str()));
                });
                return res(a[0], c);
            }
            if (n == "strict") return res(a[0], vm->findClass(a[0].c_str()).get());
            if (n == "native") return res(a[0], env()->GetClass(a[0].c_str()).get());
            if (n == "register") return res(a[0], reg(a[0]).get());
            if (n == "mention") {
                auto o = j->FindClass("java/lang/Object");
                auto L = "L" + a[0] + ";";
                // a fresh member name each time: a member that exists already is found, not declared
                static int cnt = 0;
                auto m = "m" + std::to_string(cnt++);
                switch (atoi(a[1].c_str())) {
                case 0: j->GetMethodID(o, m.c_str(), ("(" + L + ")V").c_str()); break;
                case 1: j->GetStaticMethodID(o, m.c_str(), ("()" + L).c_str()); break;
                case 2: j->GetFieldID(o, m.c_str(), L.c_str()); break;
                case 3: j->GetMethodID(o, m.c_str(), ("([I[[" + L + "JDLjava/lang/String;)V").c_str()); break;
                }
                return res("", nullptr);
            }
            if (n == "array") {
                auto c = (jclass)JNITypes<jclass>::ToJNIType(env(), vm->findClass(a[0].c_str()));
                auto arr = j->NewObjectArray(2, c, nullptr);
                return res(a[1], native(j, j->GetObjectClass(arr)));
            }
            if (n == "intarray") return res(a[0], native(j, j->GetObjectClass(j->NewIntArray(1))));
            if (n == "objclass") {
                reg(a[0]);
                jobject o = a[0] == "a/X" ? JNITypes<std::shared_ptr<TX>>::ToJNIType(env(), std::make_shared<TX>())
                          : a[0] == "X" ? JNITypes<std::shared_ptr<TP>>::ToJNIType(env(), std::make_shared<TP>())
                          : JNITypes<std::shared_ptr<TXY>>::ToJNIType(env(), std::make_shared<TXY>());
                return res(a[0], native(j, j->GetObjectClass(o)));
            }
        }
        return hier_op(n, a);
    }
};

// ---------------- C06
template<class T> static std::shared_ptr<T> mk() { return std::make_shared<T>(); }
struct Slot : Extends<Object> { std::shared_ptr<Object> o; };

std::string ClassesWorld::hier_op(const std::string& n, const Args& a) {
    auto e = env(); auto j = e->GetJNIEnv();
    auto I = [&](size_t i) { return atoi(a[i].c_str()); };
    auto num = [&](long long r) { return vf::Obj().i("r", r).end(); };
    auto cls = [&](const std::string& c) -> jclass {
        if (!hc.count(c)) hc[c] = (jclass)j->NewGlobalRef(j->FindClass(c == "O" ? "java/lang/Object" : c == "Cls" ? "java/lang/Class" : ("h/" + c).c_str()));
        return hc[c];
    };
    auto name = [&](jclass c) -> std::string {
        if (!c) return "";
        auto s = JNITypes<std::shared_ptr<Class>>::JNICast(e, c)->getName();
        return s == "java/lang/Object" ? "O" : s == "java/lang/Class" ? "Cls" : s.substr(0, 2) == "h/" ? s.substr(2) : s;
    };
    if (n == "hreg") {
        auto h = [&](auto* t, const char* nm) {
            using T = std::remove_pointer_t<decltype(t)>;
            auto c = e->GetClass<T>(nm);
            c->Hook(e, "<init>", []() { return std::make_shared<T>(); });
            c->Hook(e, "make", []() { return std::make_shared<T>(); });
            c->Hook(e, "makeobj", []() -> std::shared_ptr<Object> { return std::make_shared<T>(); });
        };
        auto& t = a[0];
        if (t == "A") h((HA*)0, "h/A"); else if (t == "B") h((HB*)0, "h/B"); else if (t == "C") h((HC*)0, "h/C");
        else if (t == "I") h((HI*)0, "h/I"); else if (t == "D") h((HD*)0, "h/D"); else if (t == "F") h((HF*)0, "h/F");
        else if (t == "J") h((HJ*)0, "h/J");
        if (t == "B") e->GetClass("h/B")->Hook(e, "makebase", []() -> std::shared_ptr<HA> { return std::make_shared<HB>(); });
        if (t == "C") e->GetClass("h/C")->Hook(e, "makebase", []() -> std::shared_ptr<HA> { return std::make_shared<HC>(); });
        if (t == "D") e->GetClass("h/D")->Hook(e, "makebase", []() -> std::shared_ptr<HI> { return std::make_shared<HD>(); });
        if (t == "F") e->GetClass("h/F")->Hook(e, "makebase", []() -> std::shared_ptr<HI> { return std::make_shared<HF>(); });
        if (t == "J") e->GetClass("h/J")->Hook(e, "makebase", []() -> std::shared_ptr<HI> { return std::make_shared<HJ>(); });
        return num(0);
    }
    if (n == "hfab") { cls(a[0]); return num(0); }
    if (n == "hassign") return num(j->IsAssignableFrom(cls(a[0]), cls(a[1])));
    if (n == "hmatrix") {
        static const char* all[] = { "A", "B", "C", "I", "D", "F", "J", "O", "Z", "Cls" }; vf::Obj m;
        for (auto x : all) { vf::Obj row; for (auto y : all) row.i(y, j->IsAssignableFrom(cls(x), cls(y))); m.raw(x, row.end()); }
        return vf::Obj().raw("r", m.end()).end();
    }
    if (n == "hsuper") { auto s = name(j->GetSuperclass(cls(a[0]))); return vf::Obj().t("r", s).end(); }
    if (n == "hmake") {
        for (auto& o : obj) { if (o.first == "g") j->DeleteGlobalRef(o.second); else if (o.first == "w") j->DeleteWeakGlobalRef((jweak)o.second); }
        obj.clear();
        auto c = cls(a[0]); auto L = "()Lh/" + a[0] + ";"; jobject o = nullptr;
        switch (I(1)) {
        case 0: o = j->NewObject(c, j->GetMethodID(c, "<init>", "()V")); break;
        case 1: o = j->CallStaticObjectMethod(c, j->GetStaticMethodID(c, "make", L.c_str())); break;
        case 2: o = j->CallStaticObjectMethod(c, j->GetStaticMethodID(c, "makeobj", "()Ljava/lang/Object;")); break;
        case 3: {
            auto b = a[0] == "B" || a[0] == "C" ? "()Lh/A;" : "()Lh/I;";
            o = j->CallStaticObjectMethod(c, j->GetStaticMethodID(c, "makebase", b)); break;
        }
        case 4: { // element of an object array written by native code
            auto arr = std::make_shared<jnivm::Array<Object>>(1);
            std::shared_ptr<Object> p;
            auto& t = a[0];
            if (t == "A") p = mk<HA>(); else if (t == "B") p = mk<HB>(); else if (t == "C") p = mk<HC>(); else if (t == "I") p = mk<HI>();
            else if (t == "D") p = mk<HD>(); else if (t == "F") p = mk<HF>(); else p = mk<HJ>();
            (*arr)[0] = p;
            o = j->GetObjectArrayElement((jobjectArray)JNITypes<std::shared_ptr<jnivm::Array<Object>>>::ToJNIType(e, arr), 0);
            break;
        }
        }
        if (!o) return num(-1);
        obj["l"] = o; obj["g"] = j->NewGlobalRef(o); obj["w"] = j->NewWeakGlobalRef(o);
        return vf::Obj().t("r", name(j->GetObjectClass(o))).end();
    }
    auto ref = [&](const std::string& k) -> jobject { return k == "n" ? nullptr : obj.at(k); };
    if (n == "hclass") { return vf::Obj().t("r", name(j->GetObjectClass(ref(a[0])))).end(); }
    if (n == "hinst") return num(j->IsInstanceOf(ref(a[0]), cls(a[1])));
    if (n == "hdrop") {  // the object dies, the weak reference stays
        auto w = obj["w"]; j->DeleteGlobalRef(obj["g"]); j->DeleteLocalRef(obj["l"]);
        j->PopLocalFrame(nullptr);
        obj.clear(); obj["w"] = w;
        return num(0);
    }
    return vf::Obj().t("error", "unknown operation " + n).end();
}
vf::World* vf_make_world() { return new ClassesWorld(); }
std::string vf_fini() { return "{}"; }
