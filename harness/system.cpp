// Replayer for System.tla (C26).  Every operation runs on the thread it names; an implementation that
// was entered keeps executing the operations of its thread until it is told to return.
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/array.h>
#include <jnivm/method.h>
#include <jnivm/extends.h>
#include <jnivm/throwable.h>
#include <fake-jni/fake-jni.h>
#include <thread>
#include <mutex>
#include <condition_variable>
using vf::Args; using jnivm::ENV; using jnivm::Class; using jnivm::Object; using jnivm::Array; using jnivm::JNITypes;
int vf_op_timeout = 20;

struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
static VJvm* g_vm; static int noisy_id;
static int g_nodes;                       // constructed minus destroyed
static const int MAXID = 10;
static struct Node* g_node[MAXID];
struct Node : jnivm::Extends<jnivm::Throwable> {
    int id; std::shared_ptr<Node> next; std::shared_ptr<Array<Node>> kids;
    explicit Node(int id) : id(id) { g_nodes++; g_node[id] = this; }
    ~Node() {
        g_nodes--; if (g_node[id] == this) g_node[id] = nullptr;
        if (g_vm && id == noisy_id) {   // a destructor that uses the VM
            JNIEnv* e = nullptr; static_cast<JavaVM&>(*g_vm).GetEnv((void**)&e, JNI_VERSION_1_6);
            if (e) { for (int i = 0; i < 40; ++i) e->NewStringUTF("from a destructor"); e->DeleteGlobalRef(e->NewGlobalRef(e->FindClass("java/lang/String"))); }
        }
    }
    std::shared_ptr<Node> m(std::shared_ptr<Node> a);
};
static std::shared_ptr<Node> s_root;
static std::shared_ptr<Node> nodep(int id) { return g_node[id] ? std::shared_ptr<Node>(g_node[id]->shared_from_this(), g_node[id]) : nullptr; }

struct Actor {                            // a thread that executes operations, recursively inside calls
    std::mutex mx; std::condition_variable cv; std::function<void()> job; bool stop = false, done = true;
    std::exception_ptr ex; int depth = 0; std::vector<std::string> kinds; int retid = 0; std::shared_ptr<Node> ret; jobject rawret = nullptr; bool thrown = false;
    std::thread th;
    Actor() : th([this] { loop(0); }) {}
    void loop(int d) {
        for (;;) {
            std::function<void()> f;
            { std::unique_lock<std::mutex> l(mx); cv.wait(l, [&] { return stop || job; }); if (!job) return; f = std::move(job); job = nullptr; }
            try { f(); } catch (...) { ex = std::current_exception(); }
            if (depth < d) return;        // the operation was the return from this call: the caller reports
            tell();
        }
    }
    void tell() { std::lock_guard<std::mutex> l(mx); done = true; cv.notify_all(); }
    void run(std::function<void()> f) {
        std::unique_lock<std::mutex> l(mx); ex = nullptr; done = false; job = std::move(f); cv.notify_all();
        cv.wait(l, [&] { return done; });
        if (ex) { auto e = ex; ex = nullptr; std::rethrow_exception(e); }
    }
    void inside() { int d = ++depth; tell(); loop(d); }
    void end() { { std::lock_guard<std::mutex> l(mx); stop = true; cv.notify_all(); } if (th.joinable()) th.join(); }
};
static thread_local Actor* t_actor;
static int g_arg;                         // what the implementation was given
static std::shared_ptr<Node> body(std::shared_ptr<Node> a) {
    g_arg = a ? a->id : 0; t_actor->inside();
    if (t_actor->thrown) { t_actor->thrown = false; throw std::runtime_error("left"); }
    return std::move(t_actor->ret);
}
std::shared_ptr<Node> Node::m(std::shared_ptr<Node> a) { return body(a); }
static jobject nn(JNIEnv* e, jobject, jobject a) { auto o = JNITypes<std::shared_ptr<Node>>::JNICast(ENV::FromJNIEnv(e), a); g_arg = o ? o->id : 0; o.reset(); t_actor->inside(); return t_actor->rawret; }

struct SysWorld : vf::World {
    std::map<int, std::unique_ptr<Actor>> th; std::unique_ptr<VJvm> vm; std::map<int, JNIEnv*> envs; std::shared_ptr<Class> cls;
    int nn = 0, na = 0, len = 2; jclass cNode = nullptr; jmethodID mInit, mMake, mM, mF, mS; jfieldID fNext, fKids, fRoot;
    std::map<int, std::weak_ptr<Object>> arr; std::map<int, jobject> G, W; std::map<int, std::shared_ptr<Object>> nat;
    std::map<int, std::vector<std::map<int, std::vector<jobject>>>> loc;
    void on(int t, std::function<void()> f) { auto& a = th[t]; if (!a) { a.reset(new Actor); auto p = a.get(); a->run([p] { t_actor = p; }); } a->run(f); }
    unsigned tick = 0; FakeJni::Env& fenv() { return FakeJni::JniEnvContext(*vm).getJniEnv(); }
    std::shared_ptr<Object> sp(JNIEnv* j, jobject h) { if (++tick & 1) return fenv().resolveReference(h); return JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(j), h); }
    int id(Object* o) { if (!o) return 0; if (auto n = dynamic_cast<Node*>(o)) return n->id; for (auto& a : arr) if (a.second.lock().get() == o) return a.first; return 90; }
    int id(JNIEnv* j, jobject h) { return id(sp(j, h).get()); }
    std::shared_ptr<Object> object(int o) { return o <= nn ? std::static_pointer_cast<Object>(nodep(o)) : arr[o].lock(); }
    SysWorld() { memset(g_node, 0, sizeof g_node); g_nodes = 0; }
    void start() {
        vm.reset(new VJvm(true)); auto env = jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); auto j = env->GetJNIEnv(); envs[1] = j;
        cls = env->GetClass<Node>("vf/Node");
        cls->Hook(env, "<init>", [](ENV*, Class*, jint i) { return std::make_shared<Node>(i); });
        cls->Hook(env, "make", [](ENV*, Class*, jint i) { return std::make_shared<Node>(i); });
        cls->Hook(env, "next", &Node::next); cls->Hook(env, "kids", &Node::kids); cls->Hook(env, "root", &s_root);
        cls->Hook(env, "m", &Node::m);
        cls->HookInstanceFunction(env, "f", [](ENV*, Node*, std::shared_ptr<Node> a) { return body(a); });
        cls->Hook(env, "s", [](ENV*, Class*, std::shared_ptr<Node> a) { return body(a); });
        cNode = (jclass)j->NewGlobalRef(j->FindClass("vf/Node"));
        JNINativeMethod n{(char*)"nn", (char*)"(Lvf/Node;)Lvf/Node;", (void*)&::nn}; j->RegisterNatives(cNode, &n, 1);
        mInit = j->GetMethodID(cNode, "<init>", "(I)V"); mMake = j->GetStaticMethodID(cNode, "make", "(I)Lvf/Node;");
        mM = j->GetMethodID(cNode, "m", "(Lvf/Node;)Lvf/Node;"); mF = j->GetMethodID(cNode, "f", "(Lvf/Node;)Lvf/Node;"); mS = j->GetStaticMethodID(cNode, "s", "(Lvf/Node;)Lvf/Node;");
        fNext = j->GetFieldID(cNode, "next", "Lvf/Node;"); fKids = j->GetFieldID(cNode, "kids", "[Lvf/Node;"); fRoot = j->GetStaticFieldID(cNode, "root", "Lvf/Node;");
        loc[1] = {{}}; g_vm = vm.get();
    }
    ~SysWorld() {
        g_vm = nullptr;
        for (auto& t : th) while (t.second->depth) { auto a = t.second.get(); a->run([a] { a->ret = nullptr; a->rawret = nullptr; a->thrown = false; a->depth--; }); }
        for (auto& t : th) if (t.first != 1 && envs.count(t.first)) t.second->run([&] { vm->DetachCurrentThread(); });
        for (auto n : g_node) if (n) { auto keep = nodep(n->id); keep->next = nullptr; keep->kids = nullptr; }
        for (auto& a : arr) cut(a.first);
        s_root = nullptr; nat.clear(); cls.reset();
        if (th[1]) th[1]->run([&] { vm.reset(); });
        for (auto& t : th) t.second->end();
        s_leak = g_nodes; for (auto& a : arr) s_leak += !a.second.expired();
    }
    static int s_leak;
    void cut(int a) { auto o = std::dynamic_pointer_cast<Array<Node>>(arr[a].lock()); if (o) for (jsize i = 0; i < o->getSize(); ++i) (*o)[i] = std::shared_ptr<Node>(); }
    jobject local(int t, int o) { for (auto& f : loc[t]) if (!f[o].empty()) return f[o].back(); return nullptr; }
    jobject handle(int t, const std::string& k, int i) { return k == "l" ? local(t, i) : k == "g" ? G[i] : k == "w" ? W[i] : nullptr; }
    int got(int t, JNIEnv* j, jobject h) { int i = id(j, h); if (i > 0 && i <= nn && &sp(j, h)->getClass() != cls.get()) return 91; if (i && i != 90) loc[t][0][i].push_back(h); return i; }
    std::string op(const std::string& n, const Args& a) override {
        auto I = [&](size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; };
        if (n == "config") { nn = I(0); na = I(1); len = a.size() > 2 ? I(2) : 2; noisy_id = I(3); on(1, [&] { start(); }); return "0"; }
        int t = I(0), r = 0; JNIEnv* j = envs.count(t) ? envs[t] : nullptr;
        auto h = [&](size_t i) { return handle(t, a[i], I(i + 1)); };
        std::string err;
        try { on(t, [&] {
            if (n == "make") {
                int o = I(1); jobject x;
                if (o > nn) { x = j->NewObjectArray(len, cNode, nullptr); arr[o] = sp(j, x); }
                else x = I(2) ? j->NewObject(cNode, mInit, (jint)o) : j->CallStaticObjectMethod(cNode, mMake, (jint)o);
                r = got(t, j, x);
            }
            else if (n == "newl") r = got(t, j, ++tick & 1 ? j->NewLocalRef(h(1)) : fenv().createLocalReference(sp(j, h(1))));
            else if (n == "dell") { for (auto& f : loc[t]) if (!f[I(1)].empty()) { auto x = f[I(1)].back(); f[I(1)].pop_back(); j->DeleteLocalRef(x); break; } }
            else if (n == "push") { if (j->PushLocalFrame(4)) r = -1; loc[t].insert(loc[t].begin(), std::map<int, std::vector<jobject>>()); }
            else if (n == "pop") { auto x = j->PopLocalFrame(h(1)); loc[t].erase(loc[t].begin()); r = got(t, j, x); }
            else if (n == "newg") { auto x = ++tick & 1 ? j->NewGlobalRef(h(2)) : vm->createGlobalReference(sp(j, h(2))); if (x) G[I(1)] = x; r = id(j, x); }
            else if (n == "delg") { j->DeleteGlobalRef(G[I(1)]); G.erase(I(1)); }
            else if (n == "neww") { auto x = j->NewWeakGlobalRef(h(2)); if (x) W[I(1)] = x; r = id(j, x); }
            else if (n == "delw") { j->DeleteWeakGlobalRef((jweak)W[I(1)]); W.erase(I(1)); }
            else if (n == "same") r = j->IsSameObject(h(1), h(3)) ? 1 : 0;
            else if (n == "hold") nat[I(1)] = object(I(1));
            else if (n == "drop") nat.erase(I(1));
            else if (n == "nmake") { nat[I(1)] = std::make_shared<Node>(I(1)); r = id(nat[I(1)].get()); }
            else if (n == "setnext") j->SetObjectField(h(1), fNext, h(3));
            else if (n == "getnext") r = got(t, j, j->GetObjectField(h(1), fNext));
            else if (n == "setkids") j->SetObjectField(h(1), fKids, h(3));
            else if (n == "getkids") r = got(t, j, j->GetObjectField(h(1), fKids));
            else if (n == "setelem") j->SetObjectArrayElement((jobjectArray)h(1), I(3) - 1, h(4));
            else if (n == "getelem") r = got(t, j, j->GetObjectArrayElement((jobjectArray)h(1), I(3) - 1));
            else if (n == "setroot") j->SetStaticObjectField(cNode, fRoot, h(1));
            else if (n == "getroot") r = got(t, j, j->GetStaticObjectField(cNode, fRoot));
            else if (n == "nset") { auto p = nodep(I(2)); auto q = nodep(I(1)); q->next = p; }
            else if (n == "cut") cut(I(1));
            else if (n == "throw") { if (j->Throw((jthrowable)h(1))) r = -1; }
            else if (n == "occurred") r = got(t, j, j->ExceptionOccurred());
            else if (n == "clear") j->ExceptionClear();
            else if (n == "enter") call(t, j, a[1], h(2), h(4));
            else if (n == "leave") { auto x = th[t].get(); x->rawret = h(1); x->retid = id(j, h(1)); if (x->kinds.back() != "nn") x->ret = std::dynamic_pointer_cast<Node>(sp(j, h(1))); x->kinds.pop_back(); x->depth--; }
            else if (n == "leavethrow") { auto x = th[t].get(); x->thrown = true; x->retid = 0; x->kinds.pop_back(); x->depth--; }
            else if (n == "attach") { JNIEnv* e = nullptr; if (vm->AttachCurrentThread(&e, nullptr) || !e) r = -1; envs[t] = e; loc[t] = {{}}; }
            else if (n == "detach") { if (vm->DetachCurrentThread()) r = -1; envs.erase(t); loc.erase(t); }
            else r = -99;
        }); } catch (std::exception& e) { err = e.what(); }
        if (n == "enter") r = g_arg;
        if (n == "leave" || n == "leavethrow") r = result;
        std::vector<long long> l; for (int i = 1; i <= nn + na; ++i) l.push_back(i <= nn ? g_node[i] != nullptr : !arr[i].expired());
        vf::Obj o; o.raw("live", vf::iarr(l)).i("r", r); if (err.size()) o.t("error", err);
        return o.end();
    }
    int result = 0;
    void call(int t, JNIEnv* j, std::string k, jobject h, jobject a) {
        g_arg = -1; th[t]->kinds.push_back(k);
        if (k == "nm" || k == "nn") {
            auto o = sp(j, h); auto v = std::dynamic_pointer_cast<Node>(sp(j, a)); loc[t][0][id(o.get())].push_back((jobject)(Object*)o.get()); if (v) loc[t][0][v->id].push_back((jobject)(Object*)v.get());
            int res;
            try { auto m = cls->getMethod("(Lvf/Node;)Lvf/Node;", k == "nm" ? "m" : "nn"); auto x = m->invoke(*j, o.get(), v); res = k == "nm" ? got(t, j, x.l) : id(j, x.l); }
            catch (std::exception& e) { res = 99; if (int i = k == "nm" ? th[t]->retid : 0) loc[t][0][i].push_back((jobject)(Object*)g_node[i]); }
            result = res; return;
        }
        if (k == "f") loc[t][0][id(j, h)].push_back((jobject)sp(j, h).get());
        jobject x = k == "m" ? j->CallObjectMethod(h, mM, a) : k == "f" ? j->CallObjectMethod(h, mF, a) : j->CallStaticObjectMethod(cNode, mS, a);
        result = got(t, j, x);
    }
};
int SysWorld::s_leak;
vf::World* vf_make_world() { return new SysWorld; }
std::string vf_fini() { return vf::Obj().i("leak", SysWorld::s_leak).end(); }
