// Replayer for Hooks.tla and Rehook.tla (C24), see hooks.h.
#include "hooks.h"
#undef VF_NO_MAIN
#include "vf_main.h"
using vf::Args;
int vf_op_timeout = 20;
Got got; std::function<void()> during; Objs ob;
std::map<std::string, Shape*> shapes;
#define P(n) void hooks_part##n();
P(0) P(1) P(2) P(3) P(4) P(5) P(6)
#undef P
struct VJvm : FakeJni::Jvm { VJvm() : FakeJni::Jvm(false, true) {} };

struct HooksWorld : vf::World {
    std::unique_ptr<VJvm> vm;
    jclass cls; jobject local, global, weak;
    std::map<std::string, void*> ids;
    unsigned tick = 0;
    ~HooksWorld() { ob = Objs(); got = Got(); vm.reset(); }
    ENV* env() { return jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); }
    void start() {
        if (shapes.empty()) { hooks_part0(); hooks_part1(); hooks_part2(); hooks_part3(); hooks_part4(); hooks_part5(); hooks_part6(); }
        vm.reset(new VJvm());
        auto e = env(); auto j = e->GetJNIEnv();
        e->GetClass<Parent>("t/Parent"); e->GetClass<Recv>("t/Recv"); e->GetClass<Child>("t/Child"); e->GetClass<Made>("t/Made");
        cls = (jclass)j->NewGlobalRef(j->FindClass("t/Recv"));
        ob.recv = std::make_shared<Recv>(); ob.b = std::make_shared<Recv>(); ob.a = std::make_shared<Object>(); ob.m = std::make_shared<Made>(); ob.p = std::make_shared<Parent>(); ob.d = std::make_shared<Child>(); ob.n = std::make_shared<Named>();
        ob.cls = e->GetClass("t/Recv"); ob.clsarg = e->GetClass("t/Made");
        ob.s = std::make_shared<String>("s"); ob.t = std::make_shared<String>("t"); ob.ia = std::make_shared<Arr<jint>>(2); ob.iaa = std::make_shared<Arr<Arr<jint>>>(2); ob.sa = std::make_shared<Arr<SP<String>>>(2);
        local = JNITypes<SP<Object>>::ToJNIType(e, SP<Object>(ob.recv)); global = j->NewGlobalRef(local); weak = j->NewWeakGlobalRef(local);
    }
    // the value a parameter of this type gets
    jvalue value(const std::string& t) {
        jvalue v; memset(&v, 0, sizeof v);
        auto e = env();
        auto o = [&](auto p) { v.l = JNITypes<std::decay_t<decltype(p)>>::ToJNIReturnType(e, p); };
        switch (t[0]) {
        case 'Z': v.z = 1; break; case 'B': v.b = 5; break; case 'C': v.c = 5; break; case 'S': v.s = 5; break; case 'I': v.i = 5; break; case 'J': v.j = 7; break; case 'F': v.f = 5; break; case 'D': v.d = 5; break;
        default:
            if (t == "Ljava/lang/String;") o(ob.s); else if (t == "Ljava/lang/Object;") o(ob.a); else if (t == "Lt/Recv;") o(ob.b); else if (t == "Lt/Made;") o(ob.m); else if (t == "Lt/Parent;") o(ob.p); else if (t == "Lt/Child;") o(ob.d);
            else if (t == "Lt/Named;") o(ob.n); else if (t == "Ljava/lang/Class;") o(ob.clsarg); else if (t == "[I") o(ob.ia); else if (t == "[[I") o(ob.iaa); else if (t == "[Ljava/lang/String;") o(ob.sa);
            else throw std::runtime_error("no value for " + t);
        }
        return v;
    }
    static std::vector<std::string> types(const std::string& sig) {   // parameter types, then the return type
        std::vector<std::string> r;
        for (size_t i = 1; i < sig.size();) {
            if (sig[i] == ')') { i++; continue; }
            size_t b = i;
            while (sig[i] == '[') i++;
            i = sig[i] == 'L' ? sig.find(';', i) + 1 : i + 1;
            r.push_back(sig.substr(b, i - b));
        }
        return r;
    }
    std::string obj(jobject o) { return nameof(JNITypes<SP<Object>>::JNICast(env(), o).get()); }
    static std::string num(long long v) { return std::to_string(v); }
    jobject receiver() { switch (tick++ % 3) { case 0: return local; case 1: return global; default: return weak; } }
    // calls (or reads, or writes) through an id: what the implementation received, and the result
    std::string use(char kind, void* id, const std::string& sig, bool write) {
        auto j = env()->GetJNIEnv();
        got = Got();
        std::string r;
        auto o = receiver();
        if (kind == 'i' || kind == 's') {
            auto t = types(sig);
            std::vector<jvalue> a;
            for (size_t i = 0; i + 1 < t.size(); i++) a.push_back(value(t[i]));
            a.push_back(jvalue{});
            auto m = (jmethodID)id;
#define CALL(T) (kind == 'i' ? j->Call##T##MethodA(o, m, a.data()) : j->CallStatic##T##MethodA(cls, m, a.data()))
            switch (t.back()[0]) {
            case 'V': CALL(Void); break;
            case 'Z': r = num(CALL(Boolean)); break; case 'B': r = num(CALL(Byte)); break; case 'C': r = num(CALL(Char)); break; case 'S': r = num(CALL(Short)); break;
            case 'I': r = num(CALL(Int)); break; case 'J': r = num(CALL(Long)); break; case 'F': r = num(CALL(Float)); break; case 'D': r = num(CALL(Double)); break;
            default: r = obj(CALL(Object));
            }
        } else {
            auto f = (jfieldID)id;
            jvalue v = write ? value(sig) : jvalue{};
#define FLD(T, x) if (write) { if (kind == 'f') j->Set##T##Field(o, f, v.x); else j->SetStatic##T##Field(cls, f, v.x); } \
                  else r = nameval(kind == 'f' ? j->Get##T##Field(o, f) : j->GetStatic##T##Field(cls, f));
            auto nameval = [&](auto x) -> std::string { if constexpr (std::is_same<decltype(x), jobject>::value) return obj(x); else return num((long long)x); };
            switch (sig[0]) {
            case 'Z': FLD(Boolean, z) break; case 'B': FLD(Byte, b) break; case 'C': FLD(Char, c) break; case 'S': FLD(Short, s) break;
            case 'I': FLD(Int, i) break; case 'J': FLD(Long, j) break; case 'F': FLD(Float, f) break; case 'D': FLD(Double, d) break; default: FLD(Object, l)
            }
        }
        if (j->ExceptionCheck()) { j->ExceptionClear(); return "exception"; }
        if (got.n > 1) return "ran " + num(got.n) + " times";
        if (got.n == 0) return "nothing ran";
        if (got.env && got.env != (void*)j) return "wrong environment";
        return got.args + "|" + r;
    }
    void* lookup(const std::string& name, const std::string& key) {
        auto j = env()->GetJNIEnv(); auto sig = key.substr(2);
        switch (key[0]) {
        case 'i': return j->GetMethodID(cls, name.c_str(), sig.c_str());
        case 's': return j->GetStaticMethodID(cls, name.c_str(), sig.c_str());
        case 'f': return j->GetFieldID(cls, name.c_str(), sig.c_str());
        default: return j->GetStaticFieldID(cls, name.c_str(), sig.c_str());
        }
    }
    static std::vector<std::string> split(const std::string& s) {
        std::vector<std::string> r; if (s == "-") return r;
        std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) r.push_back(t); return r;
    }
    std::string op(const std::string& n, const Args& a) override {
        if (!vm) start();
        auto j = env()->GetJNIEnv();
        struct Frame { JNIEnv* j; Frame(JNIEnv* j) : j(j) { j->PushLocalFrame(8); } ~Frame() { j->PopLocalFrame(nullptr); } } frame(j);
        auto hook = [&](const std::string& form, const std::string& key, const std::string& name, const std::string& who) {
            auto s = shapes.find(key);
            if (s == shapes.end()) return false;
            return s->second->install(ob.cls.get(), env(), form, name, who);
        };
        if (n == "install") {   // form, env, lead, params, ret, candidates
            auto name = "h" + std::to_string(tick++) + a[0];
            if (!hook(a[0], a[1] + "/" + a[2] + "/" + a[3] + "/" + a[4], name, "w")) return vf::Obj().t("error", "no such shape").end();
            std::vector<std::string> r;
            for (auto& c : split(a[5])) {
                auto id = lookup(name, c);
                r.push_back(!id ? "none" : use(c[0], id, c.substr(2), a[0] == "set" || a[0] == "iset"));
            }
            return vf::Obj().raw("r", vf::sarr(r)).end();
        }
        if (n == "hook") {      // name, form, shape, who
            if (!hook(a[1], a[2], a[0], a[3])) return vf::Obj().t("error", "no such shape").end();
            return vf::Obj().i("r", 1).end();
        }
        if (n == "look") {      // name, key: 1 the same id as ever, -1 another, -2 the id of another member
            auto id = lookup(a[0], a[1]);
            if (!id) return vf::Obj().i("r", 0).end();
            auto k = a[0] + "/" + a[1];
            auto f = ids.find(k);
            if (f != ids.end()) return vf::Obj().i("r", f->second == id ? 1 : -1).end();
            for (auto& i : ids) if (i.second == id) return vf::Obj().i("r", -2).end();
            ids[k] = id;
            return vf::Obj().i("r", 1).end();
        }
        if (n == "use" || n == "usehook") {       // name, key, write: through the id that was looked up first
            auto f = ids.find(a[0] + "/" + a[1]);
            if (f == ids.end()) f = ids.emplace(a[0] + "/" + a[1], lookup(a[0], a[1])).first;
            if (!f->second) return vf::Obj().t("r", "no id").end();
            if (n == "usehook") during = [&] { if (!hook(a[3], a[4], a[0], a[5])) got.n = 100; };
            auto r = use(a[1][0], f->second, a[1].substr(2), a[2] == "1");
            if (during) { during = nullptr; return vf::Obj().t("r", "it did not run").end(); }
            return vf::Obj().t("r", got.n ? got.who : r).end();
        }
        return vf::Obj().t("error", "unknown operation " + n).end();
    }
};
vf::World* vf_make_world() { return new HooksWorld(); }
std::string vf_fini() { return "{}"; }
