// Replayer for Reflect.tla and Buffers.tla (C22).
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/method.h>
#include <jnivm/extends.h>
#include <jnivm/bytebuffer.h>
#include <fake-jni/fake-jni.h>
#include <sys/mman.h>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object; using jnivm::JNITypes; using jnivm::ByteBuffer;
int vf_op_timeout = 20;
struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
struct RE : jnivm::Extends<Object> {};
struct RS : jnivm::Extends<RE> {};
struct Key { const char *name, *kind, *cls, *mname, *sig; bool hook; };
static Key keys[] = { {"m1", "m", "r/E", "run", "()V", 1}, {"m2", "m", "r/E", "run", "(I)V", 0}, {"m3", "m", "r/S", "run", "()V", 1}, {"s1", "s", "r/E", "run", "()V", 1}, {"s2", "s", "r/E", "st", "(I)V", 0},
    {"c1", "c", "r/E", "<init>", "()V", 1}, {"c2", "c", "r/S", "<init>", "(I)V", 0}, {"f1", "f", "r/E", "x", "I", 1}, {"f2", "f", "r/E", "x", "J", 0}, {"t1", "t", "r/E", "x", "I", 1}, {"t2", "t", "r/S", "y", "J", 0} };
static std::string ran;
struct ReflectWorld : vf::World {
    std::unique_ptr<VJvm> vm; JNIEnv* j = nullptr; std::map<std::string, void*> ids; std::map<std::string, jclass> cls; bool strict = false;
    std::map<std::string, std::map<std::string, jobject>> ref; // slot or buffer, kind
    std::map<std::string, std::shared_ptr<ByteBuffer>> native; void* page = nullptr; jclass hold; jmethodID raw, shared; std::string seen; jobject rest[5];
    ENV* env() { return jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); }
    ~ReflectWorld() { native.clear(); ref.clear(); vm.reset(); if (page) munmap(page, 8192); }
    static Key& key(const std::string& n) { for (auto& k : keys) if (n == k.name) return k; throw std::runtime_error("key"); }
    void* lookup(const Key& k) {
        auto c = cls.at(k.cls);
        switch (*k.kind) {
        case 'm': case 'c': return j->GetMethodID(c, k.mname, k.sig); case 's': return j->GetStaticMethodID(c, k.mname, k.sig);
        case 'f': return j->GetFieldID(c, k.mname, k.sig); default: return j->GetStaticFieldID(c, k.mname, k.sig);
        }
    }
    void hook(const Key& k) {
        auto E = env(); auto c = E->GetClass(k.cls); std::string n = k.name; bool i = std::string(k.sig) == "(I)V" || std::string(k.sig) == "I";
        switch (*k.kind) {
        case 'm': if (i) c->HookInstanceFunction(E, k.mname, [n](ENV*, Object*, jint) { ran = n; }); else c->HookInstanceFunction(E, k.mname, [n](ENV*, Object*) { ran = n; }); break;
        case 's': if (i) c->Hook(E, k.mname, [n](ENV*, Class*, jint) { ran = n; }); else c->Hook(E, k.mname, [n](ENV*, Class*) { ran = n; }); break;
        case 'c': if (i) c->Hook(E, k.mname, [n](jint) { ran = n; return std::make_shared<RS>(); }); else c->Hook(E, k.mname, [n]() { ran = n; return std::make_shared<RE>(); }); break;
        case 'f': if (i) c->HookInstanceGetterFunction(E, k.mname, [n](ENV*, Object*) -> jint { ran = n; return 1; }); else c->HookInstanceGetterFunction(E, k.mname, [n](ENV*, Object*) -> jlong { ran = n; return 1; }); break;
        default: if (i) c->HookGetterFunction(E, k.mname, [n](ENV*, Class*) -> jint { ran = n; return 1; }); else c->HookGetterFunction(E, k.mname, [n](ENV*, Class*) -> jlong { ran = n; return 1; });
        }
    }
    bool hooked(const Key& k) { return strict || k.hook; }
    std::string use(const Key& k) {
        void* p = ids[k.name]; if (lookup(k) != p) return "another id";
        ran = ""; auto c = cls.at(k.cls); auto m = (jmethodID)p; auto f = (jfieldID)p; bool i = std::string(k.sig) == "(I)V" || std::string(k.sig) == "I";
        auto o = *k.kind == 'm' || *k.kind == 'f' ? (std::string(k.cls) == "r/E" ? JNITypes<std::shared_ptr<RE>>::ToJNIType(env(), std::make_shared<RE>()) : JNITypes<std::shared_ptr<RS>>::ToJNIType(env(), std::make_shared<RS>())) : nullptr;
        switch (*k.kind) {
        case 'm': j->CallVoidMethod(o, m, 1); break; case 's': j->CallStaticVoidMethod(c, m, 1); break; case 'c': j->NewObject(c, m, 1); break;
        case 'f': if (i) j->GetIntField(o, f); else j->GetLongField(o, f); break; default: if (i) j->GetStaticIntField(c, f); else j->GetStaticLongField(c, f);
        }
        return ran == (hooked(k) ? k.name : "") ? k.name : "ran " + ran;
    }
    std::string name(void* id) { if (!id) return "null"; for (auto& x : ids) if (x.second == id) return x.first; return "unknown id"; }
    std::string cname(jobject o) { auto c = JNITypes<std::shared_ptr<Class>>::JNICast(env(), j->GetObjectClass(o)); return c ? c->nativeprefix : "?"; }
    void del(const std::string& s, const std::string& k) {
        auto& m = ref[s]; auto r = m.at(k); m.erase(k);
        if (k == "l") j->DeleteLocalRef(r); else if (k == "g") j->DeleteGlobalRef(r); else if (k == "w") j->DeleteWeakGlobalRef(r);
    }
    jobject make(const std::string& to, jobject r) { return to == "l" ? j->NewLocalRef(r) : to == "g" ? j->NewGlobalRef(r) : j->NewWeakGlobalRef(r); }
    static std::string caps(jlong v) { return std::to_string(v); }
    void* addr(const std::string& a) { return a == "null" ? nullptr : a == "page" ? page : a == "odd" ? (char*)page + 3 : (void*)~(uintptr_t)0; }
    std::string addrname(void* p) { for (auto a : { "null", "page", "odd", "high" }) if (addr(a) == p) return a; return "?"; }
    std::string fin(const std::string& r) { // the second page cannot be touched without a crash, the first must still be there
        std::string m = "untouched"; for (int i = 0; i < 4096; ++i) if (((unsigned char*)page)[i] != (unsigned char)(i * 7)) m = "changed";
        return vf::Obj().t("r", r).t("mem", m).end();
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") {
            strict = a[1] == "strict"; vm.reset(new VJvm(strict)); auto E = env(); j = E->GetJNIEnv();
            E->GetClass<RE>("r/E"); E->GetClass<RS>("r/S");
            for (auto c : { "r/E", "r/S" }) cls[c] = (jclass)j->NewGlobalRef(j->FindClass(c));
            for (auto& k : keys) if (hooked(k)) hook(k);
            if (a[0] == "buffers") {
                page = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < 4096; ++i) ((unsigned char*)page)[i] = i * 7;
                mprotect((char*)page + 4096, 4096, PROT_NONE);
                auto see = [this](ByteBuffer* b) { seen = b ? addrname(b->buffer) + " " + caps(b->capacity) : "null -1"; };
                auto c = E->GetClass("r/H"); c->Hook(E, "shared", [see](std::shared_ptr<ByteBuffer> b) { see(b.get()); }); c->Hook(E, "raw", [see](ByteBuffer* b) { see(b); });
                hold = (jclass)j->NewGlobalRef(j->FindClass("r/H")); shared = j->GetStaticMethodID(hold, "shared", "(Ljava/nio/ByteBuffer;)V"); raw = j->GetStaticMethodID(hold, "raw", "(Ljava/nio/ByteBuffer;)V");
            }
            return "0";
        }
        if (page) return fin(buffers(n, a)); else return vf::q(reflect(n, a));
    }
    unsigned tick = 0;
    struct Frame { JNIEnv* j; Frame(JNIEnv* j) : j(j) { j->PushLocalFrame(8); } ~Frame() { j->PopLocalFrame(nullptr); } };
    std::string reflect(const std::string& n, const Args& a) {
        if (n == "id") { auto& k = key(a[0]); void* p = lookup(k); if (!p) return "null"; auto& i = ids[a[0]]; if (i && i != p) return "another id"; for (auto& x : ids) if (x.first != a[0] && x.second == p) return "id of " + x.first; i = p; return a[0]; }
        if (n == "to") {
            auto& k = key(a[1]); auto c = a[3] == "sub" ? cls["r/S"] : cls[k.cls]; bool m = strchr("msc", *k.kind); jboolean st = a[2] == "1" ? "\1\2\377"[++tick % 3] : 0; // everything but 0 is true
            auto r = m ? j->ToReflectedMethod(c, (jmethodID)ids[a[1]], st) : j->ToReflectedField(c, (jfieldID)ids[a[1]], st);
            if (!r) return "null"; ref[a[0]]["l"] = r; return "reflected";
        }
        if (n == "tonull") {
            auto& k = key(a[0]); bool m = strchr("msc", *k.kind); bool nc = a[1] == "class"; jclass c = nc ? nullptr : cls[k.cls]; void* p = nc ? ids[a[0]] : nullptr; jobject r = nullptr;
            for (int st = 0; st < 3; ++st) if (auto x = m ? j->ToReflectedMethod(c, (jmethodID)p, st) : j->ToReflectedField(c, (jfieldID)p, st)) r = x;
            return r ? "reflected" : "null";
        }
        if (n == "other") {
            auto& r = ref[a[0]]["l"];
            if (a[1] == "string") r = j->NewStringUTF("run"); else if (a[1] == "class") r = j->NewLocalRef(cls["r/E"]); else if (a[1] == "buffer") r = j->NewDirectByteBuffer(nullptr, 0);
            else r = JNITypes<std::shared_ptr<jnivm::Throwable>>::ToJNIType(env(), std::make_shared<jnivm::Throwable>());
            return r ? "ok" : "null";
        }
        if (n == "ref") { auto r = make(a[2], ref[a[0]].at(a[1])); if (r) ref[a[0]][a[2]] = r; else { // weak references to dead objects give no object
                ref[a[0]][a[2]] = nullptr; } return "ok"; }
        if (n == "del") { del(a[0], a[1]); return "ok"; }
        if (n == "from") { auto r = ref[a[0]].at(a[1]); return name(a[2] == "m" ? (void*)j->FromReflectedMethod(r) : (void*)j->FromReflectedField(r)); }
        if (n == "fromnull") return name(a[0] == "m" ? (void*)j->FromReflectedMethod(nullptr) : (void*)j->FromReflectedField(nullptr));
        if (n == "class") { Frame f(j); auto c = cname(ref[a[0]].at(a[1])); return c == "java/lang/String" ? "string" : c == "java/lang/Class" ? "class" : c == "java/nio/ByteBuffer" ? "buffer" : c == "java/lang/Throwable" ? "throwable" : c; }
        if (n == "use") { Frame f(j); return use(key(a[0])); }
        return "?";
    }
    std::string buffers(const std::string& n, const Args& a) {
        if (n == "new") {
            auto p = addr(a[1]); jlong c = std::stoll(a[2]);
            if (a[3] == "native") { native[a[0]] = std::make_shared<ByteBuffer>(p, c); Frame f(j); return cname(JNITypes<std::shared_ptr<ByteBuffer>>::ToJNIType(env(), native[a[0]])); }
            auto r = j->NewDirectByteBuffer(p, c); ref[a[0]]["l"] = r; Frame f(j); return cname(r);
        }
        if (n == "ref") {
            Frame* f = a[2] == "l" ? nullptr : new Frame(j);
            jobject from = a[1] == "n" ? JNITypes<std::shared_ptr<ByteBuffer>>::ToJNIType(env(), native[a[0]]) : ref[a[0]].at(a[1]);
            if (a[2] == "n") native[a[0]] = JNITypes<std::shared_ptr<ByteBuffer>>::JNICast(env(), from);
            else if (a[2] == "l" && a[1] == "n") ref[a[0]]["l"] = from;
            else ref[a[0]][a[2]] = make(a[2], from);
            delete f; return "ok";
        }
        if (n == "del") { if (a[1] == "n") native.erase(a[0]); else del(a[0], a[1]); return "ok"; }
        jobject r = nullptr; Frame f(j);
        if (n == "ask") {
            r = ref[a[0]].at(a[1]);
            if (a[2] != "jni") { seen = "not called"; j->CallStaticVoidMethod(hold, a[2] == "raw" ? raw : shared, r); return seen; }
        } else if (a[0] == "string") r = j->NewStringUTF("x"); else if (a[0] == "class") r = hold; else if (a[0] == "array") r = j->NewByteArray(3);
        else if (a[0] == "method") r = j->ToReflectedMethod(hold, raw, JNI_TRUE);
        return addrname(j->GetDirectBufferAddress(r)) + " " + caps(j->GetDirectBufferCapacity(r));
    }
};
// IsSameObject answers with a truth value
struct Reflect2 : ReflectWorld {
    std::string op(const std::string& n, const Args& a) override { if (n == "same") return j->IsSameObject(ref[a[0]].at(a[1]), ref[a[2]].at(a[3])) ? "true" : "false"; return ReflectWorld::op(n, a); }
};
vf::World* vf_make_world() { return new Reflect2; }
std::string vf_fini() { return vf::Obj().end(); }
