// Replayer for PrimArrays.tla (C12).
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/array.h>
#include <limits>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object; using jnivm::Array;
int vf_op_timeout = 20;
template<class T> struct Tr;
#define TR(ty, nm, v1, v2) template<> struct Tr<ty> { using A = ty##Array; static ty val(int i) { return i == 0 ? ty{} : i == 1 ? ty(v1) : ty(v2); } \
    static A mk(JNIEnv* j, jsize n) { return j->New##nm##Array(n); } static ty* el(JNIEnv* j, A a, jboolean* c) { return j->Get##nm##ArrayElements(a, c); } \
    static void rel(JNIEnv* j, A a, ty* p, jint m) { j->Release##nm##ArrayElements(a, p, m); } \
    static void get(JNIEnv* j, A a, jsize i, jsize n, ty* b) { j->Get##nm##ArrayRegion(a, i, n, b); } static void set(JNIEnv* j, A a, jsize i, jsize n, const ty* b) { j->Set##nm##ArrayRegion(a, i, n, b); } };
TR(jboolean, Boolean, 1, 0xfe) TR(jbyte, Byte, -128, 127) TR(jchar, Char, 0xffff, 0x8001) TR(jshort, Short, -32768, 0x1234) TR(jint, Int, -2147483647 - 1, 0x12345678)
TR(jlong, Long, 0x8000000000000001ull, 0x123456789abcdef0ll) TR(jfloat, Float, -0.0f, 1e-45f) TR(jdouble, Double, -std::numeric_limits<double>::infinity(), 5e-324)
template<class T> static int idx(const T& v) { for (int i = 0; i < 3; ++i) { T w = Tr<T>::val(i); if (!memcmp(&v, &w, sizeof v)) return i; } return -9; }
static std::vector<int> nums(const std::string& s) { std::vector<int> r; if (s == "-") return r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) r.push_back(std::stoi(t)); return r; }

struct Impl { virtual ~Impl() {} virtual std::string op(const std::string& n, const Args& a) = 0; };
template<class T> struct ImplT : Impl {
    JNIEnv* j; ENV* env; using X = Tr<T>; using A = typename X::A; unsigned tick = 0;
    struct Slot { std::string k = "none"; std::shared_ptr<Array<T>> n; jobject g = nullptr; T* held = nullptr; std::unique_ptr<T[]> ext; };
    std::map<std::string, Slot> sl; std::vector<std::string> names;
    ImplT(ENV* e, const std::vector<std::string>& names) : j(e->GetJNIEnv()), env(e), names(names) { for (auto& n : names) sl[n]; }
    ~ImplT() { for (auto& s : sl) if (s.second.g) j->DeleteGlobalRef(s.second.g); }
    struct Ref { JNIEnv* j; jobject l, h; char k; ~Ref() { if (k == 'g') j->DeleteGlobalRef(h); if (k == 'w') j->DeleteWeakGlobalRef(h); if (l) j->DeleteLocalRef(l); } operator A() { return (A)h; } };
    Ref ref(Slot& s, char k) {
        jobject l = s.n ? jnivm::JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(env, s.n) : j->NewLocalRef(s.g);
        jobject h = k == 'g' ? j->NewGlobalRef(l) : k == 'w' ? j->NewWeakGlobalRef(l) : l;
        if (k == 'g') { j->DeleteLocalRef(l); l = nullptr; } // the global reference alone
        return { j, l, h, k };
    }
    std::vector<long long> ix(const T* p, size_t n) { std::vector<long long> r; for (size_t i = 0; i < n; ++i) r.push_back(idx<T>(p[i])); return r; }
    std::vector<long long> read(Slot& s, const std::string& w, char k) {
        auto r = ref(s, k);
        jsize n = j->GetArrayLength(r);
        if (w == "elem") { jboolean c = 7; T* p = X::el(j, r, ++tick & 1 ? &c : nullptr); auto v = ix(p, n); X::rel(j, r, p, tick % 3); return v; }
        if (w == "crit") { jboolean c = 7; T* p = (T*)j->GetPrimitiveArrayCritical(r, ++tick & 1 ? &c : nullptr); auto v = ix(p, n); j->ReleasePrimitiveArrayCritical(r, p, tick % 3); return v; }
        if (w == "held") return ix(s.held, n);
        if (w == "foreign") return ix(s.ext.get(), n);
        auto na = jnivm::JNITypes<std::shared_ptr<Array<T>>>::JNICast(env, (jobject)(A)r);
        std::vector<long long> v; for (jsize i = 0; i < na->getSize(); ++i) v.push_back(idx<T>((*na)[i]));
        return v;
    }
    std::string done(const std::string& r) {
        vf::Obj o;
        for (auto& n : names) {
            auto& s = sl[n]; std::vector<long long> v;
            if (s.k != "none") {
                auto h = ref(s, "lgw"[++tick % 3]); jsize len = j->GetArrayLength(h);
                std::unique_ptr<T[]> b(new T[len]); X::get(j, h, 0, len, b.get()); v = ix(b.get(), len);
                for (auto w : {"elem", "crit", "held", "native"}) if (read(s, w, "lgw"[tick % 3]) != v) v.push_back(-1);
                if (s.ext && s.k == "view" && read(s, "foreign", 'l') != v) v.push_back(-2);
            }
            o.raw(n, vf::Obj().t("k", s.k).raw("d", vf::iarr(v)).end());
        }
        return vf::Obj().raw("r", r).raw("arr", o.end()).end();
    }
    void keep(Slot& s, const std::string& k, std::shared_ptr<Array<T>> n) { s.k = k; s.n = n; s.held = ref(s, 'l').h ? X::el(j, ref(s, 'l'), nullptr) : nullptr; }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "pick") return done("0");
        if (n == "null") return done("[" + std::to_string(j->GetArrayLength(nullptr)) + "," + (X::el(j, nullptr, nullptr) || j->GetPrimitiveArrayCritical(nullptr, nullptr) ? "\"pointer\"" : "\"null\"") + "]");
        if (n == "churn") {
            jsize len = std::stoi(a[0]) * 500;
            auto once = [&] { j->PushLocalFrame(4); auto x = X::mk(j, len); std::unique_ptr<T[]> b(new T[len + 1]); X::get(j, x, 0, len, b.get()); if (len) X::set(j, x, len - 1, 1, b.get());
                X::rel(j, x, X::el(j, x, nullptr), 0); (void)jnivm::JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(env, std::make_shared<Array<T>>(b.get(), len)); j->PopLocalFrame(nullptr); };
            for (int i = 0; i < 3; ++i) once();
            size_t before = __sanitizer_get_current_allocated_bytes();
            for (int i = 0; i < 16; ++i) once();
            size_t after = __sanitizer_get_current_allocated_bytes();
            return done(after > before ? "\"grows\"" : "\"steady\"");
        }
        auto& s = sl[a[0]];
        auto num = [&](int i) { return std::stoi(a[i]); };
        if (n == "new") {
            jobject l = X::mk(j, num(1)); auto c = jnivm::JNITypes<std::shared_ptr<Class>>::JNICast(env, j->GetObjectClass(l));
            s.k = "jni"; s.g = j->NewGlobalRef(l); j->DeleteLocalRef(l); s.held = X::el(j, (A)s.g, nullptr);
            std::string nm = j->IsSameObject(j->FindClass(c->nativeprefix.c_str()), (jobject)c.get()) ? c->nativeprefix : "?";
            return done(vf::q(nm));
        }
        if (n == "vec") { std::vector<T> v; for (int i = 0; i < num(1); ++i) v.push_back(X::val((i + 1) % nv())); auto p = mkvec(v); keep(s, "vec", p); return done("0"); }
        if (n == "copy" || n == "view") {
            jsize len = num(1); s.ext.reset(new T[len]); for (int i = 0; i < len; ++i) s.ext[i] = X::val((i + 1) % nv());
            keep(s, n, n == "copy" ? tick++ & 1 ? std::make_shared<Array<T>>(s.ext.get(), len) : std::make_shared<Array<T>>(s.ext.get(), len, true) : std::make_shared<Array<T>>(s.ext.get(), len, false));
            if (n == "copy") { for (int i = 0; i < len; ++i) s.ext[i] = X::val(0); s.ext.reset(); }
            return done("0");
        }
        if (n == "drop") {
            jsize len = j->GetArrayLength(ref(s, 'l'));
            bool view = s.k == "view"; s.k = "none"; s.n.reset(); if (s.g) j->DeleteGlobalRef(s.g); s.g = nullptr; s.held = nullptr;
            auto v = view ? ix(s.ext.get(), len) : std::vector<long long>(); s.ext.reset();
            return done(vf::iarr(v));
        }
        if (n == "get") {
            auto h = ref(s, a[3][0]); jsize len = num(2); std::unique_ptr<T[]> b(new T[len]); // exactly the region: anything more is seen by ASan
            X::get(j, h, num(1), len, b.get()); return done(vf::iarr(ix(b.get(), len)));
        }
        if (n == "set") {
            auto v = nums(a[2]); std::unique_ptr<T[]> b(new T[v.size()]); for (size_t i = 0; i < v.size(); ++i) b[i] = X::val(v[i]);
            X::set(j, ref(s, a[3][0]), num(1), (jsize)v.size(), b.get()); return done("0");
        }
        if (n == "own") { // source array, destination array, start, length, destination start, reference, through which function
            auto& d = sl[a[1]]; jsize len = num(3);
            if (a[6] == "get") X::get(j, ref(s, a[5][0]), num(2), len, X::el(j, ref(d, 'l'), nullptr) + num(4));
            else X::set(j, ref(d, a[5][0]), num(4), len, X::el(j, ref(s, 'l'), nullptr) + num(2));
            return done("0");
        }
        if (n == "read") return done(vf::iarr(read(s, a[1], a[2][0])));
        if (n == "write") {
            auto h = ref(s, a[4][0]); int i = num(2); T v = X::val(num(3)); auto& w = a[1];
            if (w == "elem") { T* p = X::el(j, h, nullptr); p[i] = v; X::rel(j, h, p, ++tick % 2 ? 0 : JNI_COMMIT); }
            else if (w == "crit") { T* p = (T*)j->GetPrimitiveArrayCritical(h, nullptr); p[i] = v; j->ReleasePrimitiveArrayCritical(h, p, ++tick % 2 ? 0 : JNI_COMMIT); }
            else if (w == "held") s.held[i] = v; else if (w == "foreign") s.ext[i] = v;
            else (*jnivm::JNITypes<std::shared_ptr<Array<T>>>::JNICast(env, (jobject)(A)h))[i] = v;
            return done("0");
        }
        return "\"?\"";
    }
    int NV = 3; int nv() { return NV; }
    std::shared_ptr<Array<T>> mkvec(const std::vector<T>& v) { return std::make_shared<Array<T>>(v); }
};
struct PrimWorld : vf::World {
    jnivm::VM vm; std::unique_ptr<Impl> im; int nv = 3; std::vector<std::string> names;
    template<class T> void mk() { auto p = new ImplT<T>(vm.GetEnv().get(), names); p->NV = nv; im.reset(p); }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") { nv = std::stoi(a[0]); for (size_t i = 1; i < a.size(); ++i) names.push_back(a[i]); return "0"; }
        if (n == "pick") switch (a[0][0]) { case 'Z': mk<jboolean>(); break; case 'B': mk<jbyte>(); break; case 'C': mk<jchar>(); break; case 'S': mk<jshort>(); break;
            case 'I': mk<jint>(); break; case 'J': mk<jlong>(); break; case 'F': mk<jfloat>(); break; case 'D': mk<jdouble>(); break; }
        auto j = vm.GetEnv()->GetJNIEnv();
        j->PushLocalFrame(8); std::string r = im->op(n, a); j->PopLocalFrame(nullptr);
        return r;
    }
    ~PrimWorld() { im.reset(); }
};
vf::World* vf_make_world() { return new PrimWorld; }
std::string vf_fini() { return vf::Obj().end(); }
