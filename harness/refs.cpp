// Replayer for LocalRefs.tla (C01), GlobalRefs.tla (C02), Threads.tla (C03).
#include "vf.h"
#include "workers.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/extends.h>
using namespace jnivm;
using vf::Args;
int vf_op_timeout = 20;

static const int MAXID = 10;
static int g_count[MAXID];          // constructed minus destroyed, per object id
static struct VObj* g_obj[MAXID];
static VM* g_vm = nullptr;          // for noisy destructors
static int noisy_id = 0;

struct VObj : Extends<Object> {
    int id;
    explicit VObj(int id) : id(id) { g_count[id]++; g_obj[id] = this; }
    ~VObj() {
        g_count[id]--;
        if (g_obj[id] == this) g_obj[id] = nullptr;
        if (g_vm && id == noisy_id) {   // a destructor that uses the VM
            JNIEnv* e = nullptr;
            g_vm->GetJavaVM()->GetEnv((void**)&e, JNI_VERSION_1_6);
            for (int i = 0; i < 40; ++i) e->NewStringUTF("from a destructor");
            e->FindClass("vf/Noise");
        }
    }
    static std::shared_ptr<VObj> find(int id) {
        return g_obj[id] ? std::shared_ptr<VObj>(g_obj[id]->shared_from_this(), g_obj[id]) : nullptr;
    }
};
struct Holder : Extends<Object> {
    std::shared_ptr<VObj> f;
};
static std::shared_ptr<VObj> s_accessor;

struct RefsWorld : vf::World {
    std::unique_ptr<VM> vm;
    std::vector<std::unique_ptr<vf::Worker>> th;   // threads 2.. ; thread 1 is the main thread
    std::map<int, JNIEnv*> envs;
    jclass cObj, cHolder;
    jobject pinned, holder;
    std::shared_ptr<Holder> nholder;
    std::shared_ptr<Array<VObj>> narr; jobject jarr;
    jmethodID mGet, mMake, mInit, mIdOf, mId; jfieldID fF, fAcc, fId;
    std::map<int, std::shared_ptr<VObj>> nat;
    std::vector<std::map<int, std::vector<jobject>>> frames{1};
    std::map<int, jobject> G, W;
    std::map<int, std::map<int, jobject>> tl; // thread -> object -> local handle
    int nobj = 2;

    RefsWorld() {
        memset(g_count, 0, sizeof g_count); memset(g_obj, 0, sizeof g_obj);
        vm.reset(new VM());
        auto env = vm->GetEnv().get(); auto j = env->GetJNIEnv();
        envs[1] = j;
        auto c = env->GetClass<VObj>("vf/Obj");
        c->Hook(env, "<init>", [](ENV*, Class*, jint id) { return std::make_shared<VObj>(id); });
        c->Hook(env, "make", [](ENV*, Class*, jint id) { return std::make_shared<VObj>(id); });
        c->Hook(env, "get", [](ENV*, Class*, jint id) { return VObj::find(id); });
        c->Hook(env, "idOf", [](ENV*, Class*, std::shared_ptr<VObj> o) -> jint { return o ? o->id : 0; });
        c->HookInstanceFunction(env, "id", [](ENV*, VObj* o) -> jint { return o->id; });
        c->Hook(env, "fid", &VObj::id);
        c->HookGetterFunction(env, "acc", [](ENV*, Class*) { return s_accessor; });
        auto h = env->GetClass<Holder>("vf/Holder");
        h->Hook(env, "f", &Holder::f);
        cObj = (jclass)j->NewGlobalRef(j->FindClass("vf/Obj"));
        cHolder = (jclass)j->NewGlobalRef(j->FindClass("vf/Holder"));
        mInit = j->GetMethodID(cObj, "<init>", "(I)V");
        mMake = j->GetStaticMethodID(cObj, "make", "(I)Lvf/Obj;");
        mGet = j->GetStaticMethodID(cObj, "get", "(I)Lvf/Obj;");
        mIdOf = j->GetStaticMethodID(cObj, "idOf", "(Lvf/Obj;)I");
        mId = j->GetMethodID(cObj, "id", "()I");
        fId = j->GetFieldID(cObj, "fid", "I");
        fF = j->GetFieldID(cHolder, "f", "Lvf/Obj;");
        fAcc = j->GetStaticFieldID(cObj, "acc", "Lvf/Obj;");
        nholder = std::make_shared<Holder>();
        narr = std::make_shared<Array<VObj>>(1);
        j->PushLocalFrame(0);
        holder = j->NewGlobalRef(JNITypes<std::shared_ptr<Holder>>::ToJNIType(env, nholder));
        jarr = j->NewGlobalRef((jobject)JNITypes<std::shared_ptr<Array<VObj>>>::ToJNIType(env, narr));
        pinned = j->NewGlobalRef(j->NewObjectArray(1, cObj, nullptr));
        j->PopLocalFrame(nullptr);
        g_vm = vm.get();
        noisy_id = 0;
    }
    ~RefsWorld() {
        g_vm = nullptr;
        for (auto& t : th) t->finish();
        nat.clear(); s_accessor = nullptr; nholder = nullptr; narr = nullptr;
        vm.reset();
    }
    void on(int t, std::function<void()> f) {
        if (t == 1) return f();
        while ((int)th.size() < t - 1) th.emplace_back(new vf::Worker());
        th[t - 2]->run(f);
    }
    int idof(JNIEnv* j, jobject h) { return h ? j->CallStaticIntMethod(cObj, mIdOf, h) : 0; }
    std::string res(int r) {
        std::vector<long long> l;
        for (int i = 1; i <= nobj; ++i) l.push_back(g_count[i]);
        return vf::Obj().raw("live", vf::iarr(l)).i("r", r).end();
    }
    jobject anyLocal(int o) {
        for (auto& f : frames) if (!f[o].empty()) return f[o].back();
        return nullptr;
    }
    jobject handle(const std::string& k, int i) {
        if (k == "l") return tl[1][i];
        if (k == "g") return G[i];
        if (k == "w") return W[i];
        return nullptr;
    }
    jobject make(JNIEnv* j, int o, int k) {
        if (k == 1) return j->CallStaticObjectMethod(cObj, mMake, (jint)o);
        return j->NewObject(cObj, mInit, (jint)o);
    }

    std::string op(const std::string& n, const Args& a) override {
        auto I = [&](size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; };
        auto j = envs[1];
        if (n == "config") { nobj = I(0); noisy_id = I(1); return "{}"; }
        // ---------------- C01
        if (n == "new") {
            if (I(1) == 0) { nat[I(0)] = std::make_shared<VObj>(I(0)); return res(0); }
            auto h = make(j, I(0), I(1));
            frames[0][I(0)].push_back(h);
            return res(idof(j, h));
        }
        if (n == "get") {
            int o = I(0); jobject h = nullptr;
            switch (I(1)) {
            case 0: h = j->CallStaticObjectMethod(cObj, mGet, (jint)o); break;
            case 1: nholder->f = VObj::find(o); h = j->GetObjectField(holder, fF); nholder->f = nullptr; break;
            case 2: (*narr)[0] = VObj::find(o); h = j->GetObjectArrayElement((jobjectArray)jarr, 0); (*narr)[0] = std::shared_ptr<VObj>(); break;
            case 3: s_accessor = VObj::find(o); h = j->GetStaticObjectField(cObj, fAcc); s_accessor = nullptr; break;
            }
            frames[0][o].push_back(h);
            return res(idof(j, h));
        }
        if (n == "newlocal") {
            auto h = j->NewLocalRef(anyLocal(I(0)));
            frames[0][I(0)].push_back(h);
            return res(idof(j, h));
        }
        if (n == "dellocal") {
            for (auto& f : frames) if (!f[I(0)].empty()) { j->DeleteLocalRef(f[I(0)].back()); f[I(0)].pop_back(); break; }
            return res(0);
        }
        if (n == "push") {
            if (j->PushLocalFrame(I(0)) != 0) return vf::Obj().t("error", "push").end();
            frames.insert(frames.begin(), std::map<int, std::vector<jobject>>());
            return res(0);
        }
        if (n == "pop") {
            auto h = j->PopLocalFrame(I(0) ? anyLocal(I(0)) : nullptr);
            frames.erase(frames.begin());
            if (frames.empty()) frames.emplace_back();
            if (I(0)) frames[0][I(0)].push_back(h);
            return res(idof(j, h));
        }
        if (n == "hold") { nat[I(0)] = VObj::find(I(0)); return res(0); }
        if (n == "drop") { nat.erase(I(0)); return res(0); }
        if (n == "store" && a.size() == 1) { j->SetObjectArrayElement((jobjectArray)pinned, 0, I(0) ? anyLocal(I(0)) : nullptr); return res(0); }
        // ---------------- C02
        if (n == "make" && a.size() == 1) { auto h = make(j, I(0), 2); loc[I(0)].push_back(h); tl[1][I(0)] = h; return res(idof(j, h)); }
        if (n == "newl" && a.size() == 2) {
            auto h = j->NewLocalRef(handle(a[0], I(1)));
            int r = idof(j, h);
            if (r) { loc[r].push_back(h); tl[1][r] = h; }
            return res(r);
        }
        if (n == "newg" && a.size() == 3) { auto h = j->NewGlobalRef(handle(a[1], I(2))); if (h) G[I(0)] = h; return res(idof(j, h)); }
        if (n == "neww") { auto h = j->NewWeakGlobalRef(handle(a[1], I(2))); if (h) W[I(0)] = h; return res(idof(j, h)); }
        if (n == "dell" && a.size() == 1) { auto& v = loc[I(0)]; j->DeleteLocalRef(v.back()); v.pop_back(); if (v.size()) tl[1][I(0)] = v.back(); return res(0); }
        if (n == "delg" && a.size() == 1 && tmode == 0) { j->DeleteGlobalRef(G[I(0)]); G.erase(I(0)); return res(0); }
        if (n == "delw") { j->DeleteWeakGlobalRef((jweak)W[I(0)]); W.erase(I(0)); return res(0); }
        if (n == "same") return res(j->IsSameObject(handle(a[0], I(1)), handle(a[2], I(3))) ? 1 : 0);
        if (n == "type") return res((int)j->GetObjectRefType(handle(a[0], I(1))));
        if (n == "store") {
            j->SetObjectArrayElement((jobjectArray)pinned, 0, handle(a[0], I(1)));
            j->PushLocalFrame(0);
            int r = idof(j, j->GetObjectArrayElement((jobjectArray)pinned, 0));
            j->PopLocalFrame(nullptr);
            return res(r);
        }
        if (n == "use") {
            auto h = handle(a[1], I(2)); int r = -1;
            j->PushLocalFrame(0);
            switch (I(0)) {
            case 0: r = j->CallStaticIntMethod(cObj, mIdOf, h); break;
            case 1: r = j->CallIntMethod(h, mId); break;
            case 2: r = j->GetIntField(h, fId); break;
            case 3: r = j->CallNonvirtualIntMethod(h, cObj, mId); break;
            case 4: r = j->IsInstanceOf(h, cObj) ? 1 : 0; break;
            case 5: r = j->IsSameObject(j->GetObjectClass(h), cObj) ? 1 : 0; break;
            }
            j->PopLocalFrame(nullptr);
            return res(r);
        }
        if (n == "flush") { j->PopLocalFrame(nullptr); loc.clear(); return res(0); }
        // ---------------- C03
        return thread_op(n, a);
    }
    std::map<int, std::vector<jobject>> loc;
    int tmode = 0; jobject tg = nullptr; // the single global reference of Threads.tla
    std::map<int, bool> att{{1, true}};

    std::string thread_op(const std::string& n, const Args& a) {
        tmode = 1;
        auto I = [&](size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; };
        int t = I(0), r = 0;
        auto jvm = vm->GetJavaVM();
        on(t, [&] {
            if (n == "attach") {
                JNIEnv* e = nullptr; jint rc = 0;
                switch (I(1)) {
                case 0: rc = jvm->AttachCurrentThread(&e, nullptr); break;
                case 1: rc = jvm->functions->AttachCurrentThreadAsDaemon(jvm, &e, nullptr); break;
                case 2: rc = jvm->GetEnv((void**)&e, JNI_VERSION_1_6); break;
                case 3: rc = jvm->AttachCurrentThread(nullptr, nullptr); e = vm->GetJNIEnv(); break;
                }
                if (rc != JNI_OK || !e) { r = -1; return; }
                if (att[t]) r = e == envs[t] ? 1 : -2;
                else {
                    r = 2;
                    for (auto& x : att) if (x.second && x.first != t && envs[x.first] == e) r = -3;
                }
                envs[t] = e; att[t] = true;
                JavaVM* back = nullptr;
                e->GetJavaVM(&back);
                if (back != jvm) r = -4;
                return;
            }
            if (n == "envof") { r = vm->GetJNIEnv() == envs[t] && vm->GetEnv()->GetJNIEnv() == envs[t] ? 1 : -1; return; }
            if (n == "detach") { r = jvm->DetachCurrentThread(); att[t] = false; tl[t].clear(); return; }
            auto j = envs[t];
            if (n == "make" || n == "makemore") { auto h = make(j, I(1), 1 + I(1) % 2); tl[t][I(1)] = h; r = idof(j, h); }
            else if (n == "newl") { auto h = j->NewLocalRef(tg); r = idof(j, h); tl[t][r] = h; }
            else if (n == "dell") { j->DeleteLocalRef(tl[t][I(1)]); tl[t].erase(I(1)); }
            else if (n == "newg") { tg = j->NewGlobalRef(tl[t][I(1)]); r = idof(j, tg); }
            else if (n == "delg") { j->DeleteGlobalRef(tg); tg = nullptr; }
            else if (n == "throw") { j->ThrowNew(cObj, I(1) == 1 ? "one" : "two"); }
            else if (n == "clear") j->ExceptionClear();
            else if (n == "check") {
                r = j->ExceptionCheck() ? 9 : 0;
                if (r) {
                    j->PushLocalFrame(0);
                    auto th = JNITypes<std::shared_ptr<Throwable>>::JNICast(ENV::FromJNIEnv(j), (jobject)j->ExceptionOccurred());
                    j->PopLocalFrame(nullptr);
                    try { std::rethrow_exception(th->except); }
                    catch (const std::exception& e) { r = !strcmp(e.what(), "one") ? 1 : !strcmp(e.what(), "two") ? 2 : 8; }
                }
            }
            else r = -99;
        });
        return res(r);
    }
};
vf::World* vf_make_world() { return new RefsWorld(); }
std::string vf_fini() {
    int n = 0; for (int c : g_count) n += c;
    return vf::Obj().i("leak", n).end();
}
