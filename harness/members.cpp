// Replayer for Members.tla (C05, C07, C24).
#include "vf.h"
#include "workers.h"
#include <jnivm.h>
#include <fake-jni/fake-jni.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/extends.h>
using jnivm::ENV; using jnivm::Object; using jnivm::Extends; using jnivm::JNITypes; using jnivm::Class;
using vf::Args;
int vf_op_timeout = 20;

struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
struct HA : Extends<Object> {};
struct HB : Extends<HA> {};
struct HC : Extends<HB> {};
struct HI : Extends<Object> {};
struct HD : Extends<HA, HI> {};
struct HF : Extends<HB, HD> {};
struct HJ : Extends<HI> {};

// what the implementation that ran last recorded
struct Rec { std::string who; int n = 0; void* recv = nullptr; } rec;
static void ran(const std::string& who, void* recv) { rec.who = who; rec.n++; rec.recv = recv; }
// the value an implementation returns, so that the result can be checked too
static jint val(const std::string& who) { jint r = 7; for (char c : who) r = r * 31 + c; return r; }

struct MembersWorld : vf::World {
    std::unique_ptr<VJvm> vm;
    std::unique_ptr<vf::Worker> other;
    std::map<std::string, jclass> cls;
    std::map<std::string, jobject> obj;
    std::map<std::string, jweak> weak;
    std::map<std::string, jobject> glob;
    std::map<std::string, void*> ids;      // class/member -> id
    unsigned tick = 0;

    ~MembersWorld() {
        if (other) { other->run([&] { vm->DetachCurrentThread(); }); other->finish(); }
        vm.reset();
    }
    ENV* env() { return jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); }
    static std::string full(const std::string& c) { return c == "O" ? "java/lang/Object" : "h/" + c; }
    Class* native(const std::string& c) { return env()->GetClass(full(c).c_str()).get(); }
    template<class T> void setup(const char* c) {
        auto e = env();
        e->GetClass<T>(full(c).c_str());
        auto j = e->GetJNIEnv();
        cls[c] = (jclass)j->NewGlobalRef(j->FindClass(full(c).c_str()));
        auto o = JNITypes<std::shared_ptr<T>>::ToJNIType(e, std::make_shared<T>());
        glob[c] = j->NewGlobalRef(o); weak[c] = j->NewWeakGlobalRef(o); obj[c] = j->NewLocalRef(o);
    }
    // name and signature of a key
    static void split(const std::string& m, char& kind, std::string& name, std::string& sig) {
        auto p = m.find(':', 2);
        kind = m[0]; name = m.substr(2, p - 2); sig = m.substr(p + 1);
    }
    template<class T> void hookctor(const std::string& c, Class* k, const std::string& sig, const std::string& who) {
        if (sig == "()V") k->Hook(env(), "<init>", [who](ENV*, Class* cl) { ran(who, cl); return std::make_shared<T>(); });
        else k->Hook(env(), "<init>", [who](ENV*, Class* cl, jint v) { ran(who + (v == 41 ? "" : "?"), cl); return std::make_shared<T>(); });
    }
    void hook(const std::string& c, const std::string& m, const std::string& v) {
        char kind; std::string n, sig; split(m, kind, n, sig);
        auto k = native(c); auto e = env(); auto who = c + v;
        if (kind == 'i') {
            if (sig == "()I") k->HookInstanceFunction(e, n, [who](ENV*, Object* o) -> jint { ran(who, o); return val(who); });
            else if (sig == "(I)I") k->HookInstanceFunction(e, n, [who](ENV*, Object* o, jint x) -> jint { ran(who, o); return val(who) + x; });
            else if (sig == "()V") k->HookInstanceFunction(e, n, [who](ENV*, Object* o) { ran(who, o); });
            else throw std::runtime_error("sig");
        } else if (kind == 's') {
            if (sig == "()I") k->Hook(e, n, [who](ENV*, Class* o) -> jint { ran(who, o); return val(who); });
            else if (sig == "(I)I") k->Hook(e, n, [who](ENV*, Class* o, jint x) -> jint { ran(who, o); return val(who) + x; });
            else throw std::runtime_error("sig");
        } else if (kind == 'c') {
            if (c == "A") hookctor<HA>(c, k, sig, who); else if (c == "B") hookctor<HB>(c, k, sig, who);
            else if (c == "C") hookctor<HC>(c, k, sig, who); else if (c == "D") hookctor<HD>(c, k, sig, who);
            else if (c == "F") hookctor<HF>(c, k, sig, who); else if (c == "I") hookctor<HI>(c, k, sig, who);
            else if (c == "J") hookctor<HJ>(c, k, sig, who); else if (c == "O") hookctor<Object>(c, k, sig, who);
        } else if (kind == 'f') {
            if (sig == "I") k->HookInstanceGetterFunction(e, n, [who](ENV*, Object* o) -> jint { ran(who, o); return val(who); });
            else if (sig == "J") k->HookInstanceGetterFunction(e, n, [who](ENV*, Object* o) -> jlong { ran(who, o); return val(who); });
            else throw std::runtime_error("sig");
        } else if (kind == 't') {
            if (sig == "I") k->HookGetterFunction(e, n, [who](ENV*, Class* o) -> jint { ran(who, o); return val(who); });
            else throw std::runtime_error("sig");
        }
    }
    void* lookup(JNIEnv* j, const std::string& c, const std::string& m) {
        char kind; std::string n, sig; split(m, kind, n, sig);
        auto k = cls.at(c);
        switch (kind) {
        case 'i': case 'c': return j->GetMethodID(k, n.c_str(), sig.c_str());
        case 's': return j->GetStaticMethodID(k, n.c_str(), sig.c_str());
        case 'f': return j->GetFieldID(k, n.c_str(), sig.c_str());
        case 't': return j->GetStaticFieldID(k, n.c_str(), sig.c_str());
        }
        return nullptr;
    }
    int identity(const std::string& key, void* p) {
        auto f = ids.find(key);
        if (f != ids.end()) return f->second == p ? 1 : -1;
        for (auto& s : ids) if (s.second == p) return -2;
        ids[key] = p;
        return 1;
    }
    void* id(const std::string& c, const std::string& m) {
        auto& p = ids[c + "/" + m];
        if (!p) p = lookup(env()->GetJNIEnv(), c, m);
        return p;
    }
    // receiver by turns as local, global and weak reference
    jobject receiver(const std::string& c) { switch (tick++ % 3) { case 0: return obj[c]; case 1: return glob[c]; default: return weak[c]; } }
    std::string seen(void* recv, bool valueok) {
        if (!valueok) rec.who += "?value";
        return vf::Obj().t("r", rec.who).i("n", rec.n).i("recv", rec.n == 0 || rec.recv == recv).end();
    }

    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") {
            vm.reset(new VJvm(a[0] == "strict"));
            auto j = env()->GetJNIEnv();
            env()->GetClass<Object>("java/lang/Object");
            cls["O"] = (jclass)j->NewGlobalRef(j->FindClass("java/lang/Object"));
            setup<HA>("A"); setup<HB>("B"); setup<HC>("C"); setup<HI>("I"); setup<HD>("D"); setup<HF>("F"); setup<HJ>("J");
            return "{}";
        }
        auto j = env()->GetJNIEnv();
        if (n == "hook") { hook(a[0], a[1], a[2]); return vf::Obj().i("r", 0).end(); }
        struct Frame { JNIEnv* j; Frame(JNIEnv* j) : j(j) { j->PushLocalFrame(8); } ~Frame() { j->PopLocalFrame(nullptr); } } frame(j);
        if (n == "lookup") {
            void* p = nullptr;
            if (a[3] == "0") p = lookup(j, a[0], a[1]);
            else {
                if (!other) other.reset(new vf::Worker());
                other->run([&] { JNIEnv* e; vm->AttachCurrentThread(&e, nullptr); Frame f(e); p = lookup(e, a[0], a[1]); });
            }
            if (!p) return vf::Obj().i("r", 0).end();
            return vf::Obj().i("r", identity((a[2] == "-" ? a[0] : a[2]) + "/" + a[1], p)).end();
        }
        rec = Rec();
        char kind; std::string name, sig; split(a[1], kind, name, sig);
        auto mid = (jmethodID)id(a[0], a[1]);
        auto fid = (jfieldID)mid;
        jvalue v[1]; v[0].i = 41;
        unsigned form = tick++ % 2;
        std::string out;
        auto ok = [&](jlong r, jint plus) { return rec.n == 0 ? r == 0 : r == val(rec.who) + plus; };
        auto raw = [&](const std::string& c) -> void* { return JNITypes<std::shared_ptr<Object>>::JNICast(env(), obj[c]).get(); };
        if (n == "call" || n == "ncall") {
            auto rc = n == "call" ? a[2] : a[3];
            auto o = receiver(rc);
            bool good = true;
            if (n == "call") {
                if (sig == "()I") good = ok(form ? j->CallIntMethod(o, mid) : j->CallIntMethodA(o, mid, v), 0);
                else if (sig == "(I)I") good = ok(form ? j->CallIntMethod(o, mid, 41) : j->CallIntMethodA(o, mid, v), 41);
                else if (form) j->CallVoidMethod(o, mid); else j->CallVoidMethodA(o, mid, v);
            } else {
                auto c = cls.at(a[2]);
                if (sig == "()I") good = ok(form ? j->CallNonvirtualIntMethod(o, c, mid) : j->CallNonvirtualIntMethodA(o, c, mid, v), 0);
                else if (sig == "(I)I") good = ok(form ? j->CallNonvirtualIntMethod(o, c, mid, 41) : j->CallNonvirtualIntMethodA(o, c, mid, v), 41);
                else if (form) j->CallNonvirtualVoidMethod(o, c, mid); else j->CallNonvirtualVoidMethodA(o, c, mid, v);
            }
            out = seen(raw(rc), good);
        } else if (n == "scall") {
            auto c = cls.at(a[2]);
            bool good = sig == "()I" ? ok(form ? j->CallStaticIntMethod(c, mid) : j->CallStaticIntMethodA(c, mid, v), 0)
                                     : ok(form ? j->CallStaticIntMethod(c, mid, 41) : j->CallStaticIntMethodA(c, mid, v), 41);
            out = seen(native(a[2]), good);
        } else if (n == "new") {
            auto c = cls.at(a[0]);
            auto o = form ? j->NewObject(c, mid, 41) : j->NewObjectA(c, mid, v);
            out = seen(native(a[0]), (o != nullptr) == (rec.n != 0));
        } else if (n == "fget") {
            out = "";
            auto o = receiver(a[2]);
            jlong r = sig == "I" ? j->GetIntField(o, fid) : j->GetLongField(o, fid);
            out = seen(raw(a[2]), ok(r, 0));
        } else if (n == "sfget") {
            jint r = j->GetStaticIntField(cls.at(a[2]), fid);
            out = seen(native(a[2]), ok(r, 0));
        } else return vf::Obj().t("error", "unknown operation " + n).end();
        if (j->ExceptionCheck()) { j->ExceptionClear(); return vf::Obj().t("exception", out).end(); }
        return out;
    }
};
vf::World* vf_make_world() { return new MembersWorld(); }
std::string vf_fini() { return "{}"; }
