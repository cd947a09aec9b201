// Replayer for Defaults.tla (C23).
#include "vf.h"
#include <cstdarg>
#include <cmath>
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/method.h>
#include <jnivm/extends.h>
#include <jnivm/bytebuffer.h>
#include <fake-jni/fake-jni.h>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object; using jnivm::String; using jnivm::JNITypes; using jnivm::Extends;
template<class T> using SP = std::shared_ptr<T>; template<class T> using Arr = jnivm::Array<T>;
int vf_op_timeout = 20;
struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
#define NAMED(n) static std::string getClassName() { return n; }
struct D : Extends<Object> { NAMED("a/D") };
struct Sub : Extends<D> { NAMED("a/Sub") };
struct N : Extends<Object> { NAMED("a/N") N(int) {} };
struct U : Extends<Object> { NAMED("a/U") };
struct Recv : Extends<Object> {};
struct Fake : FakeJni::JObject { DEFINE_CLASS_NAME("a/Fake") };
BEGIN_NATIVE_DESCRIPTOR(Fake) END_NATIVE_DESCRIPTOR
using Hooker = std::function<void(ENV*, Class*)>;
static std::map<std::string, Hooker> throwing, setters, ctors;
template<class T> void thrower(const char* t) {
    throwing[t] = [](ENV* e, Class* c) {
        c->Hook(e, "thrown", []() -> T { throw std::runtime_error("thrown"); });
        c->HookInstanceFunction(e, "thrown", [](ENV*, Object*) -> T { throw std::runtime_error("thrown"); });
    };
}
template<class T> void setter(const char* t) {
    setters[t] = [](ENV* e, Class* c) { c->HookInstanceSetterFunction(e, "seti", [](ENV*, Object*, T) {}); c->HookSetterFunction(e, "sets", [](ENV*, Class*, T) {}); };
}
template<class T> void ctor(const char* n) { ctors[n] = [](ENV* e, Class* c) { c->Hook(e, "<init>", [](jlong) -> SP<T> { throw std::runtime_error("thrown"); }); }; }
static void fill() {
    if (!throwing.empty()) return;
#define PRIM(L, T) thrower<T>(L); thrower<SP<Arr<T>>>("[" L); thrower<SP<Arr<Arr<T>>>>("[[" L); setter<T>(L);
    PRIM("Z", jboolean) PRIM("B", jbyte) PRIM("C", jchar) PRIM("S", jshort) PRIM("I", jint) PRIM("J", jlong) PRIM("F", jfloat) PRIM("D", jdouble)
    thrower<void>("V"); thrower<SP<Object>>("Ljava/lang/Object;"); thrower<SP<String>>("Ljava/lang/String;"); thrower<SP<Class>>("Ljava/lang/Class;"); thrower<SP<jnivm::ByteBuffer>>("Ljava/nio/ByteBuffer;"); thrower<SP<jnivm::Throwable>>("Ljava/lang/Throwable;");
    thrower<SP<D>>("La/D;"); thrower<SP<Sub>>("La/Sub;"); thrower<SP<N>>("La/N;"); thrower<SP<U>>("La/U;"); thrower<SP<Fake>>("La/Fake;");
#define ARRS(L, T) thrower<SP<Arr<T>>>("[" L); thrower<SP<Arr<Arr<T>>>>("[[" L);
    ARRS("Ljava/lang/String;", String) ARRS("La/D;", D) ARRS("La/U;", U) ARRS("La/Fake;", Fake)
    setter<SP<String>>("Ljava/lang/String;"); setter<SP<D>>("La/D;"); setter<SP<U>>("La/U;");
    ctor<D>("a/D"); ctor<Sub>("a/Sub"); ctor<N>("a/N"); ctor<Fake>("a/Fake");
}
struct DefaultsWorld : vf::World {
    std::unique_ptr<VJvm> vm; JNIEnv* j = nullptr; jclass cls; jobject recv; std::map<std::string, bool> done; std::vector<jobject> given;
    ENV* env() { return jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); }
    ~DefaultsWorld() { vm.reset(); }
    // what was returned: its class, and the length of arrays
    std::string seen(jobject r, const std::string& t) {
        if (!r) return "null";
        j->PushLocalFrame(8); std::string s;
        for (auto g : given) if (j->IsSameObject(g, r)) s = "returned before ";
        given.push_back(j->NewGlobalRef(r));
        auto c = JNITypes<SP<Class>>::JNICast(env(), j->GetObjectClass(r));
        if (!c) s += "object without class"; else {
            s += c->nativeprefix;
            // of the declared type exactly
            auto want = t[0] == 'L' ? t.substr(1, t.size() - 2) : t;
            if (c.get() != env()->GetClass(want.c_str()).get() || !j->IsInstanceOf(r, (jclass)(Object*)c.get())) s += " of another class";
            if (c->nativeprefix[0] == '[') { auto l = j->GetArrayLength((jarray)r); s += l ? " length " + std::to_string(l) : " empty"; if (dynamic_cast<jnivm::Array<void>*>((Object*)r) == nullptr) s += " no array"; }
        }
        j->PopLocalFrame(nullptr); return s;
    }
#define ALL(X) X(Z, Boolean, jboolean) X(B, Byte, jbyte) X(C, Char, jchar) X(S, Short, jshort) X(I, Int, jint) X(J, Long, jlong) X(F, Float, jfloat) X(D, Double, jdouble)
    static std::string num(double v) { return v == 0 && !std::signbit(v) ? "0" : std::to_string(v); }
    std::string vcall(char t, const std::string& full, const std::string& k, jobject o, jclass c, jmethodID m, ...) {
        va_list l; va_start(l, m); std::string r;
        switch (t) {
#define X(L, Nm, T) case #L[0]: r = num((double)(k == "virtual" ? j->Call##Nm##MethodV(o, m, l) : k == "static" ? j->CallStatic##Nm##MethodV(c, m, l) : j->CallNonvirtual##Nm##MethodV(o, c, m, l))); break;
        ALL(X)
#undef X
        case 'V': if (k == "virtual") j->CallVoidMethodV(o, m, l); else if (k == "static") j->CallStaticVoidMethodV(c, m, l); else j->CallNonvirtualVoidMethodV(o, c, m, l); r = "void"; break;
        default: r = seen(k == "virtual" ? j->CallObjectMethodV(o, m, l) : k == "static" ? j->CallStaticObjectMethodV(c, m, l) : j->CallNonvirtualObjectMethodV(o, c, m, l), full);
        }
        va_end(l); return r;
    }
    std::string call(const std::string& full, const std::string& k, const std::string& f, jobject o, jclass c, jmethodID m) {
        char t = full[0]; jvalue v[1]; memset(v, 0, sizeof v); std::string r;
        if (f == "va") r = vcall(t, full, k, o, c, m);
        else if (f == "var") switch (t) {
#define X(L, Nm, T) case #L[0]: r = num((double)(k == "virtual" ? j->Call##Nm##Method(o, m) : k == "static" ? j->CallStatic##Nm##Method(c, m) : j->CallNonvirtual##Nm##Method(o, c, m))); break;
            ALL(X)
#undef X
            case 'V': if (k == "virtual") j->CallVoidMethod(o, m); else if (k == "static") j->CallStaticVoidMethod(c, m); else j->CallNonvirtualVoidMethod(o, c, m); r = "void"; break;
            default: r = seen(k == "virtual" ? j->CallObjectMethod(o, m) : k == "static" ? j->CallStaticObjectMethod(c, m) : j->CallNonvirtualObjectMethod(o, c, m), full);
        } else switch (t) {
#define X(L, Nm, T) case #L[0]: r = num((double)(k == "virtual" ? j->Call##Nm##MethodA(o, m, v) : k == "static" ? j->CallStatic##Nm##MethodA(c, m, v) : j->CallNonvirtual##Nm##MethodA(o, c, m, v))); break;
            ALL(X)
#undef X
            case 'V': if (k == "virtual") j->CallVoidMethodA(o, m, v); else if (k == "static") j->CallStaticVoidMethodA(c, m, v); else j->CallNonvirtualVoidMethodA(o, c, m, v); r = "void"; break;
            default: r = seen(k == "virtual" ? j->CallObjectMethodA(o, m, v) : k == "static" ? j->CallStaticObjectMethodA(c, m, v) : j->CallNonvirtualObjectMethodA(o, c, m, v), full);
        }
        return r;
    }
    std::string read(const std::string& full, bool st, jobject o, jclass c, jfieldID f) {
        switch (full[0]) {
#define X(L, Nm, T) case #L[0]: if (st) j->SetStatic##Nm##Field(c, f, (T)1); else j->Set##Nm##Field(o, f, (T)1); return num((double)(st ? j->GetStatic##Nm##Field(c, f) : j->Get##Nm##Field(o, f)));
        ALL(X)
#undef X
        }
        jobject w = nullptr; if (full == "Ljava/lang/String;") w = j->NewStringUTF("written");
        if (st) j->SetStaticObjectField(c, f, w); else j->SetObjectField(o, f, w);
        return seen(st ? j->GetStaticObjectField(c, f) : j->GetObjectField(o, f), full);
    }
    std::string newobj(const std::string& f, jclass c, jmethodID m, ...) { va_list l; va_start(l, m); jvalue v[1]; memset(v, 0, sizeof v); jobject r = f == "var" ? j->NewObject(c, m, 0) : f == "arr" ? j->NewObjectA(c, m, v) : j->NewObjectV(c, m, l); va_end(l); auto cl = JNITypes<SP<Class>>::JNICast(env(), c); return seen(r, "L" + cl->nativeprefix + ";"); }
    std::string exc(bool want) { bool x = j->ExceptionCheck(); j->ExceptionClear(); return x == want ? "" : want ? " without exception" : " with exception"; }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") {
            fill(); vm.reset(new VJvm(a[0] == "strict")); auto e = env(); j = e->GetJNIEnv(); e->GetClass<Recv>("a/Recv"); cls = (jclass)j->NewGlobalRef(j->FindClass("a/Recv"));
            recv = j->NewGlobalRef(JNITypes<SP<Recv>>::ToJNIType(e, std::make_shared<Recv>())); return "0";
        }
        j->PushLocalFrame(16); auto r = run(n, a); j->PopLocalFrame(nullptr); return vf::q(r);
    }
    std::string run(const std::string& n, const Args& a) {
        auto e = env();
        if (n == "register") { if (a[0] == "a/D") e->GetClass<D>("a/D"); else if (a[0] == "a/Sub") e->GetClass<Sub>("a/Sub"); else if (a[0] == "a/N") e->GetClass<N>("a/N"); else vm->registerClass<Fake>(); return "ok"; }
        if (n == "fab" || n == "onnull" || n == "thrown") {
            auto sig = "()" + a[0]; auto name = n == "thrown" ? "thrown" : "fab";
            if (n == "thrown" && !done[a[0]]) { done[a[0]] = true; throwing.at(a[0])(e, e->GetClass("a/Recv").get()); }
            auto m = a[1] == "static" ? j->GetStaticMethodID(cls, name, sig.c_str()) : j->GetMethodID(cls, name, sig.c_str());
            if (!m) return "no id";
            auto r = call(a[0], a[1], a[2], n == "onnull" ? nullptr : recv, n == "onnull" ? nullptr : cls, m);
            return r + exc(n == "thrown");
        }
        if (n == "ctor" || n == "thrownctor") {
            auto c = (jclass)(Object*)e->GetClass(a[0].c_str()).get();
            if (n == "thrownctor" && !done["c" + a[0]]) { done["c" + a[0]] = true; ctors.at(a[0])(e, e->GetClass(a[0].c_str()).get()); }
            auto m = j->GetMethodID(c, "<init>", n == "ctor" ? "(I)V" : "(J)V"); if (!m) return "no id";
            auto r = newobj(a[1], c, m, (jlong)0); return r + exc(n == "thrownctor");
        }
        if (n == "read") {
            bool st = a[1] == "1", set = a[2] == "setter"; if (set && !done["f" + a[0]]) { done["f" + a[0]] = true; setters.at(a[0])(e, e->GetClass("a/Recv").get()); }
            auto name = set ? st ? "sets" : "seti" : "fab"; auto f = st ? j->GetStaticFieldID(cls, name, a[0].c_str()) : j->GetFieldID(cls, name, a[0].c_str()); if (!f) return "no id";
            auto r = read(a[0], st, recv, cls, f); return r + exc(false);
        }
        if (n == "nullid") { auto r = call(a[0], a[1], a[2], recv, cls, nullptr); return r + exc(false); }
        if (n == "nullfield") { auto r = read(a[0], a[1] == "1", recv, cls, nullptr); return r + exc(false); }
        return "?";
    }
};
vf::World* vf_make_world() { return new DefaultsWorld; }
std::string vf_fini() { return vf::Obj().end(); }
