// Replayer for Natives.tla (C15).
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/extends.h>
#include <fake-jni/fake-jni.h>
#include <limits>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object; using jnivm::String;
int vf_op_timeout = 20;
struct NB : FakeJni::JObject { DEFINE_CLASS_NAME("n/B") }; struct ND : NB { DEFINE_CLASS_NAME("n/D", NB) };
BEGIN_NATIVE_DESCRIPTOR(NB) END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(ND) END_NATIVE_DESCRIPTOR
struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
static std::string g_ran; static JNIEnv* g_env; static jobject g_recv; static long long g_arg;
static void ran(const std::string& what, JNIEnv* e, jobject r, long long v) {
    g_ran += what; if (e != g_env) g_ran += " wrong environment"; if (r != g_recv) g_ran += " wrong receiver"; if (v != g_arg) g_ran += " wrong argument";
}
template<int K, char M> jint nI(JNIEnv* e, jobject r, jint v) { ran(std::string("n") + std::to_string(K) + (M == 'g' ? "g" : ""), e, r, v); return v + K; }
template<int K> jlong nJ(JNIEnv* e, jobject r, jlong v) { ran("n" + std::to_string(K), e, r, v); return v + K; }
static void* fn(const std::string& m, int k) {
    static void* I[] = { 0, (void*)&nI<1, 'f'>, (void*)&nI<2, 'f'>, (void*)&nI<3, 'f'> }, *G[] = { 0, (void*)&nI<1, 'g'>, (void*)&nI<2, 'g'>, (void*)&nI<3, 'g'> }, *J[] = { 0, (void*)&nJ<1>, (void*)&nJ<2>, (void*)&nJ<3> };
    return m == "fI" ? I[k] : m == "gI" ? G[k] : J[k];
}
static const char* name(const std::string& m) { return m[0] == 'f' ? "f" : "g"; }
static const char* sig(const std::string& m) { return m[1] == 'I' ? "(I)I" : "(J)J"; }
template<class T> struct Val;
#define VAL(ty, v1, v2) template<> struct Val<ty> { static ty v(int i) { return i == 1 ? ty(v1) : ty(v2); } };
VAL(jboolean, 1, 0) VAL(jbyte, -128, 127) VAL(jchar, 0xffff, 0x8001) VAL(jshort, -32768, 0x1234) VAL(jint, -2147483647 - 1, 0x12345678) VAL(jlong, 0x8000000000000001ull, 0x123456789abcdef0ll) VAL(jfloat, -0.0f, 1e-45f) VAL(jdouble, -std::numeric_limits<double>::infinity(), 5e-324)
static jobject g_o[3]; template<> struct Val<jobject> { static jobject v(int i) { return g_o[i]; } };
static int g_v;
static void got(JNIEnv* e, jobject r, jint i, jlong l, jdouble d, jstring s, jboolean z, jfloat f, jshort h, jobject n, jbyte b, jchar c) {
    auto x = [](bool ok, const char* w) { if (!ok) g_ran += std::string(" wrong ") + w; };
    x(e == g_env, "environment"); x(r == g_recv, "receiver"); x(i == Val<jint>::v(g_v), "int"); x(l == Val<jlong>::v(g_v), "long"); jdouble d0 = Val<jdouble>::v(g_v); x(!memcmp(&d, &d0, sizeof d), "double");
    x((jobject)s == g_o[g_v], "string"); x(z == Val<jboolean>::v(g_v), "boolean"); jfloat f0 = Val<jfloat>::v(g_v); x(!memcmp(&f, &f0, sizeof f), "float"); x(h == Val<jshort>::v(g_v), "short"); x(!n, "null"); x(b == Val<jbyte>::v(g_v), "byte"); x(c == Val<jchar>::v(g_v), "char");
}
#define GOT JNIEnv* e, jobject r, jint i, jlong l, jdouble d, jstring s, jboolean z, jfloat f, jshort h, jobject n, jbyte b, jchar c
template<class T> T form(GOT) { got(e, r, i, l, d, s, z, f, h, n, b, c); return Val<T>::v(g_v); }
template<> void form<void>(GOT) { got(e, r, i, l, d, s, z, f, h, n, b, c); g_ran += "v"; }
struct NatWorld : vf::World {
    std::unique_ptr<VJvm> vm; ENV* env; JNIEnv* j; std::shared_ptr<Class> B, D; std::shared_ptr<Object> b, d; std::shared_ptr<String> s[3]; std::shared_ptr<jnivm::Array<jint>> arr[3]; unsigned tick = 0;
    ~NatWorld() { b.reset(); d.reset(); B.reset(); D.reset(); for (auto& x : s) x.reset(); for (auto& x : arr) x.reset(); vm.reset(); }
    std::shared_ptr<Class>& cl(const std::string& c) { return c == "B" ? B : D; }
    std::shared_ptr<Object>& ob(const std::string& c) { return c == "B" ? b : d; }
    jclass jc(const std::string& c) { return jnivm::JNITypes<std::shared_ptr<Class>>::ToJNIType(env, cl(c)); }
    template<class F> void hookI(Class* c, const char* n, const std::string& w, F) { }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") {
            vm.reset(new VJvm(a[0] == "strict")); env = jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); j = env->GetJNIEnv();
            vm->registerClass<NB>(); vm->registerClass<ND>(); B = NB::getDescriptor(); D = ND::getDescriptor(); b = std::make_shared<NB>(); d = std::make_shared<ND>();
            for (int i = 1; i < 3; ++i) { s[i] = std::make_shared<String>("s" + std::to_string(i)); arr[i] = std::make_shared<jnivm::Array<jint>>(i); }
            return "0";
        }
        j->PushLocalFrame(8); g_ran.clear(); g_env = j;
        std::string r;
        try { r = op2(n, a); } catch (std::runtime_error& e) { r = vf::q(g_ran + e.what()); }
        j->PopLocalFrame(nullptr);
        return r;
    }
    std::string named(const std::shared_ptr<Class>& c, const char* n) {
        auto i = c->natives.find(n); if (i == c->natives.end()) return "nothing";
        for (auto m : { "fI", "fJ", "gI" }) for (int k = 1; k < 4; ++k) if (fn(m, k) == i->second) return m + std::to_string(k);
        return "something else";
    }
    std::string op2(const std::string& n, const Args& a) {
        if (n == "register") {
            std::vector<JNINativeMethod> v; for (size_t i = 1; i < a.size(); i += 2) v.push_back({ (char*)name(a[i]), (char*)sig(a[i]), fn(a[i], std::stoi(a[i + 1])) });
            auto h = j->NewGlobalRef(jc(a[0])); jint r = j->RegisterNatives((jclass)(++tick & 1 ? h : jc(a[0])), v.data(), (jint)v.size()); j->DeleteGlobalRef(h);
            std::string t; for (size_t i = 1; i < a.size(); i += 2) t += (i > 1 ? "," : "") + vf::q(named(cl(a[0]), name(a[i])));
            return r ? "\"failed\"" : "[" + t + "]";
        }
        if (n == "unregister") { auto r = j->UnregisterNatives(jc(a[0])); return r ? "\"failed\"" : cl(a[0])->natives.empty() ? "[]" : "\"still named\""; }
        if (n == "hooki" || n == "hooks") {
            auto c = cl(a[0]); std::string w = n[4] + a[0]; auto m = a[1]; std::string tag = w + (m == "gI" ? "g" : "");
            if (n == "hooki") { if (m == "fJ") c->HookInstanceFunction(env, "f", [tag](ENV* e, Object* o, jlong v) -> jlong { ran(tag, e->GetJNIEnv(), (jobject)o, v); return v; }); else c->HookInstanceFunction(env, name(m), [tag](ENV* e, Object* o, jint v) -> jint { ran(tag, e->GetJNIEnv(), (jobject)o, v); return v; }); }
            else { if (m == "fJ") c->Hook(env, "f", [tag](ENV* e, Class* o, jlong v) -> jlong { ran(tag, e->GetJNIEnv(), g_recv, v); return v; }); else c->Hook(env, name(m), [tag](ENV* e, Class* o, jint v) -> jint { ran(tag, e->GetJNIEnv(), g_recv, v); return v; }); }
            return "0";
        }
        if (n == "jni" || n == "jnis") {
            bool st = n == "jnis"; auto c = jc(a[0]); auto m = a[1]; auto id = st ? j->GetStaticMethodID(c, name(m), sig(m)) : j->GetMethodID(c, name(m), sig(m));
            if (!id) return "\"null\"";
            if (&ob(a[0])->getClass() != cl(a[0]).get()) return "\"wrong class\"";
            g_arg = ++tick; g_recv = st ? (jobject)c : (jobject)ob(a[0]).get();
            jnivm::JNITypes<std::shared_ptr<Object>>::ToJNIType(env, ob(a[0]));
            if (m == "fJ") st ? j->CallStaticLongMethod(c, id, (jlong)g_arg) : j->CallLongMethod(g_recv, id, (jlong)g_arg); else st ? j->CallStaticIntMethod(c, id, (jint)g_arg) : j->CallIntMethod(g_recv, id, (jint)g_arg);
            return fin(m);
        }
        if (n == "invoke") {
            auto m = a[1]; auto x = cl(a[0])->getMethod(sig(m), name(m));
            bool obj = a[2] == "obj"; g_arg = ++tick; g_recv = obj ? (jobject)ob(a[0]).get() : (jobject)(Object*)cl(a[0]).get();
            long long r = 0, k = 0;
            try {
                if (m == "fJ") r = (obj ? x.invoke(*j, ob(a[0]).get(), (jlong)g_arg) : x.invoke(*j, cl(a[0]).get(), (jlong)g_arg)).j;
                else r = (obj ? x.invoke(*j, ob(a[0]).get(), (jint)g_arg) : x.invoke(*j, cl(a[0]).get(), (jint)g_arg)).i;
            } catch (std::runtime_error& e) { if (std::string(e.what()) == "No such Method!" && !obj && !((jnivm::Method*)nullptr)) { } std::string w = e.what(); return vf::q(w == "No such Method!" && none(a[0], m) ? "nothing" : g_ran + w); }
            if (g_ran.size() > 1 && g_ran[0] == 'n') { k = g_ran[1] - '0'; if (r != g_arg + k) g_ran += " wrong result"; }
            return fin(m);
        }
        if (n == "form") {
            g_v = std::stoi(a[1]); std::string ret = a[0] == "L" ? "Ljava/lang/Object;" : a[0] == "[" ? "[I" : a[0];
            std::string sg = "(IJDLjava/lang/String;ZFSLjava/lang/Object;BC)" + ret, nm = "form";
            void* f = 0; switch (a[0][0]) { case 'V': f = (void*)&form<void>; break; case 'Z': f = (void*)&form<jboolean>; break; case 'B': f = (void*)&form<jbyte>; break; case 'C': f = (void*)&form<jchar>; break; case 'S': f = (void*)&form<jshort>; break;
                case 'I': f = (void*)&form<jint>; break; case 'J': f = (void*)&form<jlong>; break; case 'F': f = (void*)&form<jfloat>; break; case 'D': f = (void*)&form<jdouble>; break; default: f = (void*)&form<jobject>; }
            auto c = env->GetClass("n/Form"); JNINativeMethod m = { (char*)nm.c_str(), (char*)sg.c_str(), f };
            jclass jcl = jnivm::JNITypes<std::shared_ptr<Class>>::ToJNIType(env, c);
            j->RegisterNatives(jcl, &m, 1);
            auto o = std::make_shared<Object>(); o->clazz = c; bool obj = a[2] == "obj"; g_recv = obj ? (jobject)o.get() : (jobject)jcl; g_o[g_v] = (jobject)s[g_v].get();
            auto x = c->getMethod(sg.c_str(), "form"); jvalue r;
            auto call = [&](auto* recv) { return x.invoke(*j, recv, Val<jint>::v(g_v), Val<jlong>::v(g_v), Val<jdouble>::v(g_v), s[g_v], Val<jboolean>::v(g_v), Val<jfloat>::v(g_v), Val<jshort>::v(g_v), std::shared_ptr<Object>(), Val<jbyte>::v(g_v), Val<jchar>::v(g_v)); };
            r = obj ? call(o.get()) : call(c.get());
            bool ok = false; auto same = [](auto p, auto q) { return !memcmp(&p, &q, sizeof p); };
            switch (a[0][0]) { case 'V': ok = g_ran == "v"; g_ran = ok ? "" : g_ran; break; case 'Z': ok = r.z == Val<jboolean>::v(g_v); break; case 'B': ok = r.b == Val<jbyte>::v(g_v); break; case 'C': ok = r.c == Val<jchar>::v(g_v); break; case 'S': ok = r.s == Val<jshort>::v(g_v); break;
                case 'I': ok = r.i == Val<jint>::v(g_v); break; case 'J': ok = r.j == Val<jlong>::v(g_v); break; case 'F': ok = same(r.f, Val<jfloat>::v(g_v)); break; case 'D': ok = same(r.d, Val<jdouble>::v(g_v)); break; default: ok = r.l == g_o[g_v]; }
            j->UnregisterNatives(jcl);
            if (c->getMethod(sg.c_str(), "form")) g_ran += " still registered";
            return ok && g_ran.empty() ? a[1] : vf::q(g_ran + (ok ? "" : " wrong result"));
        }
        return "\"?\"";
    }
    bool none(const std::string& c, const std::string& m) { return !(bool)cl(c)->getMethod(sig(m), name(m)) && !both(c, m); }
    bool both(const std::string& c, const std::string& m) { try { return (jnivm::Method*)cl(c)->getMethod(sig(m), name(m)) != nullptr; } catch (...) { return true; } }
    std::string fin(const std::string& m) {
        if (g_ran.empty()) return "\"default\"";
        if (m == "gI") { auto p = g_ran.find('g'); if (p == std::string::npos) g_ran += " of f"; else g_ran.erase(p, 1); } // only functions meant for g
        return vf::q(g_ran);
    }
};
vf::World* vf_make_world() { return new NatWorld; }
std::string vf_fini() { return vf::Obj().end(); }
