// Replayer for Fields.tla (C10).
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/extends.h>
#include <fake-jni/fake-jni.h>
#include <limits>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object; using jnivm::String;
int vf_op_timeout = 20;
using Str = std::shared_ptr<String>;
static std::vector<std::string> g_calls;
static Str g_s[3];
template<class T> struct Tr;
#define TR(ty, let, nm, v1, v2) template<> struct Tr<ty> { using J = ty; static const char* sig() { return let; } static ty val(int i) { return i == 0 ? ty{} : i == 1 ? ty(v1) : ty(v2); } \
    static ty get(JNIEnv* j, jobject o, jfieldID f) { return j->Get##nm##Field(o, f); } static void set(JNIEnv* j, jobject o, jfieldID f, ty v) { j->Set##nm##Field(o, f, v); } \
    static ty sget(JNIEnv* j, jclass o, jfieldID f) { return j->GetStatic##nm##Field(o, f); } static void sset(JNIEnv* j, jclass o, jfieldID f, ty v) { j->SetStatic##nm##Field(o, f, v); } \
    static ty tojni(ENV*, ty v) { return v; } static ty nat(ENV*, ty v) { return v; } };
TR(jboolean, "Z", Boolean, 1, 0xfe) TR(jbyte, "B", Byte, -128, 127) TR(jchar, "C", Char, 0xffff, 0x8001) TR(jshort, "S", Short, -32768, 0x1234) TR(jint, "I", Int, -2147483647 - 1, 0x12345678)
TR(jlong, "J", Long, 0x8000000000000001ull, 0x123456789abcdef0ll) TR(jfloat, "F", Float, -0.0f, 1e-45f) TR(jdouble, "D", Double, -std::numeric_limits<double>::infinity(), 5e-324)
template<> struct Tr<Str> { using J = jobject; static const char* sig() { return "Ljava/lang/String;"; } static Str val(int i) { return g_s[i]; }
    static jobject get(JNIEnv* j, jobject o, jfieldID f) { return j->GetObjectField(o, f); } static void set(JNIEnv* j, jobject o, jfieldID f, jobject v) { j->SetObjectField(o, f, v); }
    static jobject sget(JNIEnv* j, jclass o, jfieldID f) { return j->GetStaticObjectField(o, f); } static void sset(JNIEnv* j, jclass o, jfieldID f, jobject v) { j->SetStaticObjectField(o, f, v); }
    static jobject tojni(ENV* e, Str v) { return jnivm::JNITypes<Str>::ToJNIType(e, v); } static Str nat(ENV* e, jobject v) { return jnivm::JNITypes<Str>::JNICast(e, v); } };
template<class T> static int idx(T v) { for (int i = 0; i < 3; ++i) { T w = Tr<T>::val(i); if (!memcmp(&v, &w, sizeof v)) return i; } return -9; }
template<> int idx(Str v) { for (int i = 0; i < 3; ++i) if (g_s[i] == v) return i; return -9; }

template<class T> struct St { static T sm, ssh, sshD, gl, sacc; };
template<class T> T St<T>::sm{}; template<class T> T St<T>::ssh{}; template<class T> T St<T>::sshD{}; template<class T> T St<T>::gl{}; template<class T> T St<T>::sacc{};
template<class T> struct FB : jnivm::Extends<> { T pad1{}, m{}, pad2{}, sh{}, pad3{}, p{}, acc{}; };
template<class T> struct FD : jnivm::Extends<FB<T>> { T pad{}, sh{}; };
#define DESCR(N, T) struct GB##N : FakeJni::JObject { T pad1{}, m{}, sh{}; static T sm, ssh, gl; DEFINE_CLASS_NAME("g/B" #N) }; \
    struct GD##N : GB##N { T pad2{}, sh{}; static T ssh; DEFINE_CLASS_NAME("g/D" #N, GB##N) }; \
    T GB##N::sm{}; T GB##N::ssh{}; T GB##N::gl{}; T GD##N::ssh{}; \
    BEGIN_NATIVE_DESCRIPTOR(GB##N) { FakeJni::Field<&GB##N::m>{}, "m" }, { FakeJni::Field<&GB##N::sh>{}, "sh" }, \
      { FakeJni::Field<&GB##N::sm>{}, "sm", FakeJni::JFieldID::PUBLIC | FakeJni::JFieldID::STATIC }, { FakeJni::Field<&GB##N::ssh>{}, "ssh", FakeJni::JFieldID::STATIC }, { FakeJni::Field<&GB##N::gl>{}, "gl", FakeJni::JFieldID::PUBLIC }, END_NATIVE_DESCRIPTOR \
    BEGIN_NATIVE_DESCRIPTOR(GD##N) { FakeJni::Field<&GD##N::sh>{}, "sh" }, { FakeJni::Field<&GD##N::ssh>{}, "ssh", FakeJni::JFieldID::STATIC }, END_NATIVE_DESCRIPTOR
DESCR(I, jint) DESCR(D, jdouble) DESCR(L, Str)
struct VJvm : FakeJni::Jvm { VJvm() : FakeJni::Jvm(false, false) {} };

struct Impl { virtual ~Impl() {} virtual std::string op(const std::string& n, const Args& a) = 0; };
template<class T> struct ImplT : Impl {
    VJvm& vm; ENV* env; JNIEnv* j; using X = Tr<T>;
    std::map<std::string, T*> cells; std::map<std::string, std::shared_ptr<Object>> objs; std::map<std::string, std::shared_ptr<Class>> cls; std::map<Object*, std::string> nm;
    T zeros[16]{};
    ImplT(VJvm& vm, bool desc) : vm(vm), env(jnivm::VM::FromJavaVM(&vm)->GetEnv().get()), j(env->GetJNIEnv()) { }
    template<class B, class D> void use(std::shared_ptr<Class> b, std::shared_ptr<Class> d) {
        auto o = std::make_shared<B>(); auto p = std::make_shared<D>();
        cells["Bm"] = &o->m; cells["Dm"] = &p->m; cells["Bsh"] = &o->sh; cells["Dsh"] = &static_cast<B&>(*p).sh; cells["DshD"] = &p->sh;
        objs["B"] = o; objs["D"] = p; cls["B"] = b; cls["D"] = d; nm[objs["B"].get()] = "B"; nm[objs["D"].get()] = "D";
    }
    std::string who(Object* o) { auto i = nm.find(o); return i == nm.end() ? "?" : i->second; }
    std::string whoc(Class* c) { return c == cls["B"].get() ? "B" : c == cls["D"].get() ? "D" : "?"; }
    void hooks() {
        using B = FB<T>; using D = FD<T>; using S = St<T>;
        auto b = env->GetClass<B>("f/B"); auto d = env->GetClass<D>("f/D");
        use<B, D>(b, d);
        auto o = std::static_pointer_cast<Object>(objs["B"]);
        auto pb = dynamic_cast<B*>(objs["B"].get()); auto pd = dynamic_cast<D*>(objs["D"].get());
        cells["Bp"] = &pb->p; cells["Dp"] = &pd->p; cells["Bacc"] = &pb->acc; cells["Dacc"] = &pd->acc;
        cells["sm"] = &S::sm; cells["ssh"] = &S::ssh; cells["sshD"] = &S::sshD; cells["gl"] = &S::gl; cells["sacc"] = &S::sacc;
        b->Hook(env, "m", &B::m); b->Hook(env, "sh", &B::sh); d->Hook(env, "sh", &D::sh);
        b->HookInstanceProperty(env, "p", &B::p);
        b->HookInstance(env, "gl", &S::gl);
        b->Hook(env, "sm", &S::sm); b->Hook(env, "ssh", &S::ssh); d->Hook(env, "ssh", &S::sshD);
        auto g = [this](const char* n) { return [this, n](ENV* e, B* o) -> T { note(e, n, who(o)); return o->acc; }; };
        auto s = [this](const char* n) { return [this, n](ENV* e, B* o, T v) { note(e, n, who(o)); o->acc = v; }; };
        b->HookInstanceGetterFunction(env, "acc", g("acc.get")); b->HookInstanceSetterFunction(env, "acc", s("acc.set"));
        b->HookInstanceGetterFunction(env, "ro", g("ro.get")); b->HookInstanceSetterFunction(env, "wo", s("wo.set"));
        auto sg = [this](const char* n) { return [this, n](ENV* e, Class* c) -> T { note(e, n, whoc(c)); return S::sacc; }; };
        auto ss = [this](const char* n) { return [this, n](ENV* e, Class* c, T v) { note(e, n, whoc(c)); S::sacc = v; }; };
        b->HookGetterFunction(env, "sacc", sg("sacc.get")); b->HookSetterFunction(env, "sacc", ss("sacc.set"));
        b->HookGetterFunction(env, "sro", sg("sro.get")); b->HookSetterFunction(env, "swo", ss("swo.set"));
        fin();
    }
    template<class B, class D> void descr() {
        vm.registerClass<B>(); vm.registerClass<D>();
        use<B, D>(B::getDescriptor(), D::getDescriptor());
        cells["sm"] = &B::sm; cells["ssh"] = &B::ssh; cells["sshD"] = &D::ssh; cells["gl"] = &B::gl;
        int k = 0; for (auto n : {"Bp", "Dp", "Bacc", "Dacc", "sacc"}) cells[n] = &zeros[k++];
        fin();
    }
    void fin() { for (auto& c : cells) *c.second = T{}; }
    ~ImplT() { fin(); }
    void note(ENV* e, const std::string& n, const std::string& w) { g_calls.push_back(n + " " + (e == env ? w : "wrong environment")); }
    std::string done(int r) {
        vf::Obj c; for (auto& x : cells) c.i(x.first, idx<T>(*x.second));
        std::string s = vf::Obj().i("r", r).raw("calls", vf::sarr(g_calls)).raw("cells", c.end()).end();
        g_calls.clear();
        return s;
    }
    unsigned tick = 0;
    jclass jc(const std::string& c) { // the class through changing reference kinds
        auto l = jnivm::JNITypes<std::shared_ptr<Class>>::ToJNIType(env, cls[c]);
        return l;
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "native") { *cells[a[0]] = X::val(std::stoi(a[1])); return done(0); }
        j->PushLocalFrame(4);
        int r = 0;
        if (n == "get" || n == "set") {
            jfieldID f = j->GetFieldID(jc(a[1]), a[0].c_str(), X::sig());
            jobject l = jnivm::JNITypes<std::shared_ptr<Object>>::ToJNIType(env, objs[a[2]]), h = a[3] == "g" ? j->NewGlobalRef(l) : a[3] == "w" ? j->NewWeakGlobalRef(l) : l;
            if (n == "get") r = idx<T>(X::nat(env, X::get(j, h, f))); else X::set(j, h, f, X::tojni(env, X::val(std::stoi(a[4]))));
            if (a[3] == "g") j->DeleteGlobalRef(h); else if (a[3] == "w") j->DeleteWeakGlobalRef(h);
        } else {
            jfieldID f = j->GetStaticFieldID(jc(a[1]), a[0].c_str(), X::sig());
            jclass l = jc(a[2]), h = ++tick % 3 == 1 ? (jclass)j->NewGlobalRef(l) : l;
            if (n == "sget") r = idx<T>(X::nat(env, X::sget(j, h, f))); else X::sset(j, h, f, X::tojni(env, X::val(std::stoi(a[3]))));
            if (h != l || tick % 3 == 1) j->DeleteGlobalRef(h);
        }
        j->PopLocalFrame(nullptr);
        return done(r);
    }
};
struct FieldsWorld : vf::World {
    std::unique_ptr<VJvm> vm; std::unique_ptr<Impl> im;
    FieldsWorld() { vm.reset(new VJvm()); g_calls.clear(); for (int i = 1; i < 3; ++i) g_s[i] = std::make_shared<String>("s" + std::to_string(i)); }
    ~FieldsWorld() { im.reset(); g_s[1].reset(); g_s[2].reset(); vm.reset(); }
    template<class T> std::unique_ptr<Impl> mk() { auto p = new ImplT<T>(*vm, false); p->hooks(); return std::unique_ptr<Impl>(p); }
    template<class T, class B, class D> std::unique_ptr<Impl> mkd() { auto p = new ImplT<T>(*vm, true); p->template descr<B, D>(); return std::unique_ptr<Impl>(p); }
    std::string op(const std::string& n, const Args& a) override {
        if (n != "pick") return im->op(n, a);
        if (a[1] == "desc") im = a[0] == "I" ? mkd<jint, GBI, GDI>() : a[0] == "D" ? mkd<jdouble, GBD, GDD>() : mkd<Str, GBL, GDL>();
        else switch (a[0][0]) {
        case 'Z': im = mk<jboolean>(); break; case 'B': im = mk<jbyte>(); break; case 'C': im = mk<jchar>(); break; case 'S': im = mk<jshort>(); break; case 'I': im = mk<jint>(); break;
        case 'J': im = mk<jlong>(); break; case 'F': im = mk<jfloat>(); break; case 'D': im = mk<jdouble>(); break; case 'L': im = mk<Str>(); break;
        }
        return op0();
    }
    std::string op0() { return im->op("native", {"sm", "0"}); }
};
vf::World* vf_make_world() { return new FieldsWorld; }
std::string vf_fini() { return vf::Obj().end(); }
