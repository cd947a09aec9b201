// Replayer for Concurrent.tla (C20): runs a program of several threads under many schedules.
// Input:  S id n att-mask | s op args (setup) | p t op args | E quick|budget   Output: one line per distinct history.
#define VF_NO_MAIN
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/vm.h>
#include <jnivm/method.h>
#include <jnivm/field.h>
#include <jnivm/extends.h>
#include <jnivm/throwable.h>
#include <fake-jni/fake-jni.h>
#include <jnivm/weak.h>
#include <algorithm>
#ifdef VF_SCHED
#include "rt/sched_rt.h"
#include "rt/conc_rt.h"
#include <sys/wait.h>
#include <sys/personality.h>
#include <unistd.h>
using jnivm::Extends; using jnivm::Object; using jnivm::ENV; using jnivm::Class; using jnivm::JNITypes; using jnivm::Method; using jnivm::Field;
template<class T> using SP = std::shared_ptr<T>;
struct VJvm : FakeJni::Jvm { VJvm(bool strict) : FakeJni::Jvm(false, strict) {} };
#define NAMED(n) static std::string getClassName() { return n; }
static volatile int live;
struct O : Extends<Object> { NAMED("a/O") O() { live++; } ~O() { live--; } };
static volatile int own[4];
struct P : Extends<Object> { NAMED("a/P") int t; P(int t = 0) : t(t) { own[t]++; } ~P() { own[t]--; } };
struct Base : Extends<Object> { NAMED("a/Base") };
struct Sub : Extends<Base> { NAMED("a/Sub") };
struct CC : Extends<Object> { NAMED("a/C") };
extern "C" void nat_1() {} extern "C" void nat_2() {} 
using Op = std::vector<std::string>;
struct Ctx { JNIEnv* j = nullptr; jobject g = nullptr, w = nullptr; int depth = 0; bool wq = false; };
static VJvm* vm; static Ctx ctx[4]; static std::vector<Op> prog[4]; static size_t nglobals;
static jclass hC, hBase, hSub; static Class *cC, *cBase, *cSub; static jnivm::VM* jv; static jobject G, W, Robj; static jmethodID mRun, mBoom; static jobjectArray arr; static Object* rawO; static SP<Sub> fresh;
static char fns[16];
static std::string who(const char* kind, void* p, const std::string& name) { if (!p) return "null"; int k = vf_rt_id((kind + name).c_str(), p); return k ? name + "#" + std::to_string(k) : name; }
static std::string clsname(ENV* e, jclass c) {
    if (!c) return "null"; auto k = JNITypes<SP<Class>>::JNICast(e, c); return who("c", k.get(), k->nativeprefix);
}
static jclass handle(const std::string& c) { return c == "C" ? hC : c == "Base" ? hBase : hSub; }
// which class has it is decided when no thread runs
static std::string named(void* m) {
    for (auto c : {cC, cBase, cSub}) {
        for (auto& f : c->fields) if (f.get() == m) return c->nativeprefix.substr(2) + "." + f->name;
        for (auto& f : c->methods) if (f.get() == m) return c->nativeprefix.substr(2) + "." + f->name; }
    return "member of no class";
}
static std::string member(ENV* e, void* m, bool) { if (!m) return "null"; char b[32]; snprintf(b, sizeof b, "@%p", m); return b; }
static std::string resolve(const std::string& t) {
    std::string r; size_t p = 0; for (size_t a; (a = t.find('@', p)) != std::string::npos; ) { void* m; sscanf(t.c_str() + a + 1, "%p", &m); r += t.substr(p, a - p) + named(m); p = t.find('\n', a); if (p == std::string::npos) p = t.size(); }
    return r + t.substr(p);
}
static void resolve_from(long at) { auto r = resolve(std::string(vf_sh->text + at, vf_sh->len - at)); memcpy(vf_sh->text + at, r.data(), r.size()); vf_sh->len = at + r.size(); }
static std::string which(JNIEnv* j, jobject r) { auto o = JNITypes<SP<Object>>::JNICast(ENV::FromJNIEnv(j), r); auto p = dynamic_cast<P*>(o.get()); return p ? "q" + std::to_string(p->t) : o ? "another object" : "null"; }
static std::string same(JNIEnv* j, jobject r) { return !r ? "null" : j->IsSameObject(r, (jobject)rawO) ? "o" : which(j, r); }
static std::string env(int t, JNIEnv* j) {
    if (!j) return "no environment"; for (int i = 0; i < 4; i++) if (i != t && ctx[i].j == j) return "environment of another thread";
    if (ctx[t].j && ctx[t].j != j) return "a new environment"; if (ENV::FromJNIEnv(j)->GetVM() != jv) return "environment of another vm";
    ctx[t].j = j; return "own";
}
static const char* sig(const std::string& m) { return m == "g" ? "(La/Z;)I" : "()V"; }
static std::string act(int t, const Op& q) {
    auto& op = q[0]; auto& x = ctx[t]; JNIEnv* j = x.j; auto a = [&](size_t i) -> const std::string& { return q[i]; };
    if (op == "attach") { JNIEnv* n = nullptr; vm->AttachCurrentThread(&n, nullptr); return env(t, n); }
    if (op == "getenv") { JNIEnv* n = nullptr; static_cast<JavaVM&>(*vm).GetEnv((void**)&n, JNI_VERSION_1_6); return env(t, n); }
    if (op == "detach") { x.j = nullptr; vm->DetachCurrentThread(); return "ok"; }
    if (!j) return "skip";
    auto e = ENV::FromJNIEnv(j);
    if (op == "vmenv") { auto& p = jv->GetEnv(); return env(t, p ? p->GetJNIEnv() : nullptr); }
    if (op == "find") return clsname(e, j->FindClass(a(1).c_str()));
    if (op == "get") { auto c = e->GetClass(a(1).c_str()); return who("c", c.get(), c ? c->nativeprefix : "null"); }
    if (op == "intarr") { auto r = j->NewIntArray(3); return clsname(e, j->GetObjectClass(r)); }
    if (op == "objarr") { auto r = j->NewObjectArray(2, hC, nullptr); return clsname(e, j->GetObjectClass(r)); }
    if (op == "str") { auto r = j->NewStringUTF("xyz"); auto s = j->GetStringUTFChars(r, nullptr); bool ok = !strcmp(s, "xyz"); j->ReleaseStringUTFChars(r, s); return ok ? clsname(e, j->GetObjectClass(r)) : "another string"; }
    if (op == "hand") { auto o = JNITypes<SP<Sub>>::ToJNIType(e, fresh); return clsname(e, j->GetObjectClass(o)); }
    if (op == "class") { auto c = clsname(e, j->GetObjectClass(G)); return c; }
    if (op == "mid") { auto m = a(3) == "1" ? j->GetStaticMethodID(handle(a(1)), a(2).c_str(), sig(a(2))) : j->GetMethodID(handle(a(1)), a(2).c_str(), sig(a(2))); auto r = member(e, m, false); return m && ((((Method*)m)->_static != (a(3) == "1")) || ((Method*)m)->signature != sig(a(2))) ? "wrong member" : r; }
    if (op == "fid") { auto m = a(3) == "1" ? j->GetStaticFieldID(handle(a(1)), a(2).c_str(), "La/Z;") : j->GetFieldID(handle(a(1)), a(2).c_str(), "La/Z;"); auto r = member(e, m, true); return m && ((((Field*)m)->_static != (a(3) == "1")) || ((Field*)m)->type != "La/Z;") ? "wrong member" : r; }
    if (op == "run") return std::to_string(j->CallIntMethod(Robj, mRun));
    if (op == "boom") return std::to_string(j->CallIntMethod(Robj, mBoom));
    if (op == "throw") { j->ThrowNew(hC, a(1).c_str()); return "ok"; }
    if (op == "clear") { j->ExceptionClear(); return "ok"; }
    if (op == "occ") { auto o = j->ExceptionOccurred(); if (!o) return "none"; auto th = JNITypes<SP<jnivm::Throwable>>::JNICast(e, o); try { std::rethrow_exception(th->except); } catch (const std::exception& ex) { return ex.what(); } }
    if (op == "reg" || op == "reg2") {
        JNINativeMethod m[2]; bool two = op == "reg2"; auto f = (void*)&fns[(two ? a(2) : a(3))[1] - '0'];
        m[0] = {(char*)(two ? "m" : a(2).c_str()), (char*)"()I", f}; m[1] = {(char*)"n", (char*)"()I", f};
        return j->RegisterNatives(handle(a(1)), m, two ? 2 : 1) ? "failed" : "ok";
    }
    if (op == "unreg") return j->UnregisterNatives(handle(a(1))) ? "failed" : "ok";
    if (op == "nat") { auto c = JNITypes<SP<Class>>::JNICast(e, handle(a(1))); Method* m = c->getMethod("()I", a(2).c_str()); return m ? "f" + std::to_string((char*)m->native - fns) : "none"; }
    auto src = [&](const std::string& s) { return s == "G" ? G : W; };
    if (op == "gnew") { if (x.g) return "skip"; x.g = j->NewGlobalRef(src(a(1))); return same(j, x.g); }
    auto make = [&](int k) { auto l = JNITypes<SP<P>>::ToJNIType(e, std::make_shared<P>(k)); ctx[k].g = j->NewGlobalRef(l); j->DeleteLocalRef(l); };
    if (op == "give") { for (int k = 1; k < 4; k++) make(k); return "ok"; }
    if (op == "gown") { if (x.g || own[t] || x.wq) return "skip"; make(t); return same(j, x.g); }
    if (op == "gget") return same(j, x.g);
    if (op == "wown") { if (x.w || !x.g || which(j, x.g)[0] != 'q') return "skip"; x.w = j->NewWeakGlobalRef(x.g); x.wq = true; return same(j, x.w); }
    if (op == "gdel") { if (!x.g) return "skip"; auto g = x.g; bool q = which(j, g)[0] == 'q'; x.g = nullptr; j->DeleteGlobalRef(g); return !q ? "ok" : own[t] ? "kept" : "gone"; }
    if (op == "wnew") { if (x.w) return "skip"; x.w = j->NewWeakGlobalRef(src(a(1))); return x.w ? "o" : "null"; }
    if (op == "wdel") { if (!x.w) return "skip"; auto g = x.w; x.w = nullptr; x.wq = false; j->DeleteWeakGlobalRef(g); return "ok"; }
    if (op == "lnew") return same(j, j->NewLocalRef(src(a(1))));
    if (op == "wget") { if (!x.w) return "skip"; return same(j, j->NewLocalRef(x.w)); }
    if (op == "dead") return j->IsSameObject(W, nullptr) ? "dead" : "alive";
    if (op == "drop") { if (!G) return "skip"; j->DeleteGlobalRef(G); G = nullptr; return "ok"; }
    // the element is set without a local reference in between
    if (op == "put") { j->SetObjectArrayElement(arr, t, src(a(1))); return j->GetObjectArrayElement(arr, t) ? "ok" : "null"; }
    if (op == "menter") { j->MonitorEnter(G); x.depth++; return "ok"; }
    if (op == "mexit") { if (!x.depth) return "skip"; x.depth--; j->MonitorExit(G); return "ok"; }
    if (op == "final") {
        std::string r; for (auto n : {"a/X", "a/X$I", "b/Y", "[I", "[La/C;", "a/Z"}) { auto f = jv->classes.find(n); if (f != jv->classes.end()) { r += n; if (e->GetClass(n) != f->second) r += "(two)"; r += " "; } }
        r += "| "; struct M { bool f; const char* c, *m; bool st; };
        for (M m : {M{false, "C", "f", false}, {false, "Base", "f", false}, {false, "Sub", "f", false}, {false, "C", "f", true}, {false, "C", "g", false}, {false, "Base", "g", false}, {false, "Sub", "g", false}, {true, "C", "x", false}, {true, "C", "x", true}, {true, "Base", "x", false}, {true, "Sub", "x", false}}) {
            auto c = JNITypes<SP<Class>>::JNICast(e, handle(m.c)); int k = 0;
            if (m.f) { for (auto& f : c->fields) k += f->name == m.m && f->_static == m.st && f->type == "La/Z;"; } else for (auto& f : c->methods) k += f->name == m.m && f->_static == m.st && !f->native && f->signature == sig(m.m);
            if (k) r += std::string(m.f ? "f" : "m") + m.c + "." + m.m + (m.st ? "s" : "") + (k > 1 ? "*" + std::to_string(k) : "") + " ";
        }
        r += "| "; for (auto c : {hBase, hSub}) for (auto m : {"m", "n"}) { auto k = JNITypes<SP<Class>>::JNICast(e, c); std::string f = "none"; for (auto& x : k->methods) if (x->native && x->name == m) f = (f == "none" ? "" : f + "+") + "f" + std::to_string((char*)x->native - fns); r += f + " "; }
        return r + "| " + std::to_string(jv->globals.size() - nglobals) + (live == 1 ? " alive" : live == 0 ? " dead" : " ?") + (own[1] ? " q1" : "") + (own[2] ? " q2" : "") + (own[3] ? " q3" : "");
    }
    return "?";
}
static void call(int t, size_t i) {
    auto& q = prog[t][i]; vf_rt_log('i', t, (int)i, nullptr); std::string r;
    bool framed = q[0] != "lnew" && q[0] != "wget" && q[0] != "detach" && ctx[t].j;
    try {
        // every other reference the call creates is released, unless the call releases the environment
        if (framed) ctx[t].j->PushLocalFrame(0);
        r = act(t, q); if (framed && ctx[t].j) ctx[t].j->PopLocalFrame(nullptr);
    } catch (const std::exception& ex) { r = std::string("exception ") + ex.what(); }
    vf_rt_log('r', t, (int)i, r.c_str());
}
static int nthreads; static bool attached[4];
static void pre(int i) { if (attached[i + 1]) { Op q{"attach"}; act(i + 1, q); } }
static void body(int i) { for (size_t k = 0; k < prog[i + 1].size(); k++) call(i + 1, k); vf_rt_log('i', i + 1, (int)prog[i + 1].size(), nullptr); }
static void post(int i) { vf_rt_log('r', i + 1, (int)prog[i + 1].size(), "ok"); }
static void setup(bool strict) {
    vm = new VJvm(strict); jv = jnivm::VM::FromJavaVM(vm); JNIEnv* j = nullptr; vm->AttachCurrentThread(&j, nullptr); ctx[0].j = j; auto e = ENV::FromJNIEnv(j);
    e->GetClass<O>("a/O"); e->GetClass<P>("a/P"); e->GetClass<Base>("a/Base"); e->GetClass<Sub>("a/Sub"); e->GetClass<CC>("a/C");
    e->GetClass("a/Base")->Hook(e, "run", [](ENV*, Object*) -> jint { return 42; });
    e->GetClass("a/Base")->HookInstanceFunction(e, "boom", [](ENV*, Object*) -> jint { throw std::runtime_error("boom"); });
    e->GetClass("a/Base")->HookInstanceFunction(e, "run", [](ENV*, Object*) -> jint { return 42; });
    j->PushLocalFrame(0); cC = e->GetClass("a/C").get(); cBase = e->GetClass("a/Base").get(); cSub = e->GetClass("a/Sub").get();
    hC = (jclass)j->NewGlobalRef((jclass)(Object*)e->GetClass("a/C").get()); hBase = (jclass)j->NewGlobalRef((jclass)(Object*)e->GetClass("a/Base").get()); hSub = (jclass)j->NewGlobalRef((jclass)(Object*)e->GetClass("a/Sub").get());
    mRun = j->GetMethodID(hBase, "run", "()I"); mBoom = j->GetMethodID(hBase, "boom", "()I");
    Robj = j->NewGlobalRef(JNITypes<SP<Sub>>::ToJNIType(e, std::make_shared<Sub>()));
    auto o = std::make_shared<O>(); rawO = o.get(); o->clazz = e->GetClass("a/O"); fresh = std::make_shared<Sub>();
    arr = (jobjectArray)j->NewGlobalRef(j->NewObjectArray(4, (jclass)(Object*)e->GetClass("a/O").get(), nullptr));
    nglobals = jv->globals.size();
    // the object has never been handed out before
    auto g = std::make_shared<jnivm::Global>(); g->wrapped = o; jv->globals.push_back(g); G = (jobject)(Object*)g.get();
    W = j->NewWeakGlobalRef(G); j->PopLocalFrame(nullptr);
    o.reset();
}
// ---- the runs of one scenario
static long nbase;
static void child() {
    // the schedule is in vf_sh
    signal(SIGALRM, SIG_DFL); alarm(20);
    int r = vf_rt_run(nthreads, pre, body, post);
    if (r) { vf_rt_log('d', 0, 0, nullptr); resolve_from(nbase); _exit(0); }
    resolve_from(nbase);
    if (!vf_sh->recording) { prog[0].push_back({"final"}); call(0, prog[0].size() - 1); }
    fresh = nullptr; delete vm; vm = nullptr;
    _exit(live == 0 && !own[1] && !own[2] && !own[3] ? 0 : 78);
}
static std::map<std::string, int> seen; static long runs;
static void run1(FILE* out, int id, const std::string& how) {
    vf_sh->len = nbase; vf_sh->status[0] = 0; vf_sh->nbt = 0; runs++;
    pid_t p = fork(); if (!p) child();
    int st; while (waitpid(p, &st, 0) < 0) {}
    if (!vf_sh->status[0] && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) snprintf(vf_sh->status, sizeof vf_sh->status, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not return" : WIFEXITED(st) && WEXITSTATUS(st) == 78 ? "objects are not released with the vm" : "died %d", st);
    if (vf_sh->recording) { if (vf_sh->status[0]) {} else return; }
    std::string h(vf_sh->text, vf_sh->len); h += vf_sh->status[0] ? std::string("x ") + vf_sh->status + "\n" : "";
    if (seen[h]++) return;
    vf::Obj o; o.i("id", id).t("how", how).t("status", vf_sh->status).t("h", h);
    std::string bt; for (int i = 0; i < vf_sh->nbt; i++) bt += std::to_string((char*)vf_sh->bt[i] - vf_rt_base()) + " ";
    o.t("bt", bt); fprintf(out, "%s\n", o.end().c_str());
}
static void plan(const std::vector<VfStep>& s) { vf_sh->one_in = 0; vf_sh->nsteps = (int)s.size(); std::copy(s.begin(), s.end(), vf_sh->steps); }
static std::string text(const std::vector<VfStep>& s) { std::string r; for (auto& x : s) r += std::to_string(x.t) + ":" + (x.k > 1000000 ? "*" : std::to_string(x.k)) + " "; return r; }
const long ALL = 1l << 40;
static void scenario(FILE* out, int id, long budget, unsigned seed, const std::string& fixed) {
    nbase = vf_sh->len; int n = nthreads; vf_sh->seed = seed;
    std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
    auto orders = [&](auto f) { auto q = perm; do { std::vector<VfStep> s; for (int t : q) s.push_back({t, ALL}); f(s); } while (std::next_permutation(q.begin(), q.end())); };
    for (int i = 0; i < VF_MAXT; i++) { memset(&vf_sh->rec[i], 0, sizeof vf_sh->rec[i]); }
    memset(&vf_sh->conf, 0, sizeof vf_sh->conf);
    vf_sh->recording = 1; orders([&](auto& s) { plan(s); run1(out, id, "record " + text(s)); }); vf_sh->recording = 0;
    vf_rt_share();
    if (!fixed.empty()) {
        if (fixed[0] == 'r') { vf_sh->nsteps = 0; sscanf(fixed.c_str(), "random %d %u", &vf_sh->one_in, &vf_sh->seed); }
        else { std::istringstream ss(fixed); std::vector<VfStep> s; std::string w; while (ss >> w) { auto c = w.find(':'); s.push_back({atoi(w.c_str()), w[c + 1] == '*' ? ALL : atol(w.c_str() + c + 1)}); } plan(s); }
        run1(out, id, fixed); return;
    }
    long K[VF_MAXT] = {}, total = 0;
    orders([&](auto& s) { plan(s); run1(out, id, text(s)); for (int i = 0; i < n; i++) K[i] = std::max(K[i], vf_sh->vis[i]); });
    // one preemption: everywhere, or evenly spread if that is too much
    for (int i = 0; i < n; i++) total += K[i];
    long one = total * (n - 1), room = budget; double keep = one > room ? (double)room / one : 1; unsigned long x = seed * 2654435761u + id * 40503u + 1;
    auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (double)(x >> 11) / (1ul << 53); };
    for (int t = 0; t < n; t++) for (long k = 0; k < K[t]; k++) for (int u = 0; u < n; u++) if (u != t && (keep >= 1 || rnd() < keep)) {
        std::vector<VfStep> s{{t, k}, {u, ALL}}; if (n > 2 && rnd() < .5) { s.push_back({t, ALL}); } else for (int v = 0; v < n; v++) if (v != t && v != u) s.push_back({v, ALL});
        s.push_back({t, ALL}); plan(s); run1(out, id, text(s)); room--;
    }
    // two and more preemptions, and random schedules
    while (room-- > 0) {
        std::vector<VfStep> s; double r = rnd();
        if (r < .7) {
            int t = (int)(rnd() * n), u = (t + 1 + (int)(rnd() * (n - 1))) % n, v = (int)(rnd() * n); if (!K[t] || !K[u]) { continue; }
            s = {{t, (long)(rnd() * K[t])}, {u, (long)(rnd() * K[u])}};
            if (v == u) v = t;
            if (rnd() < .5) s.push_back({v, ALL}); else s.push_back({v, (long)(rnd() * K[v])});
            plan(s); run1(out, id, text(s));
        } else { vf_sh->nsteps = 0; vf_sh->one_in = 2 + (int)(rnd() * 40); vf_sh->seed = (unsigned)(rnd() * 1e9); run1(out, id, "random " + std::to_string(vf_sh->one_in) + " " + std::to_string(vf_sh->seed)); vf_sh->one_in = 0; }
    }
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    // addresses are the same in every run, where that is permitted
    if (!getenv("VF_AGAIN")) { int p = personality(0xffffffff); setenv("VF_AGAIN", "1", 1); if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    vf_rt_init(); std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w"); if (!freopen("/dev/null", "w", stdout)) return 2;
    std::string line; int id = 0; bool strict = false; std::vector<Op> st; auto split = [](const std::string& l) { Op r; std::istringstream ss(l); std::string w; while (ss >> w) r.push_back(w); return r; };
    while (std::getline(in, line)) {
        auto w = split(line); if (w.empty()) continue;
        if (w[0] == "S") { id = atoi(w[1].c_str()); nthreads = atoi(w[2].c_str()); for (int i = 0; i < 4; i++) attached[i] = (atoi(w[3].c_str()) >> i) & 1, prog[i].clear(); strict = w[4] == "strict"; }
        else if (w[0] == "s") prog[0].push_back(Op(w.begin() + 1, w.end()));
        else if (w[0] == "p") prog[atoi(w[1].c_str())].push_back(Op(w.begin() + 2, w.end()));
        else if (w[0] == "E") {
            fflush(out); vf_sh->len = 0; vf_sh->status[0] = 0;
            pid_t p = fork();
            if (!p) {
                alarm(600); setup(strict); for (size_t i = 0; i < prog[0].size(); i++) call(0, i); resolve_from(0);
                std::string fixed; for (size_t i = 3; i < w.size(); i++) fixed += (i > 3 ? " " : "") + w[i];
                scenario(out, id, atol(w[1].c_str()), (unsigned)atol(w[2].c_str()), fixed);
                fprintf(out, "{\"id\":%d,\"runs\":%ld}\n", id, runs); fflush(out); _exit(0);
            }
            int s; while (waitpid(p, &s, 0) < 0) {}
            if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) { vf::Obj o; o.i("id", id).t("how", "setup").t("status", std::string("setup failed: ") + vf_sh->status).t("h", "").t("bt", ""); fprintf(out, "%s\n", o.end().c_str()); }
        }
    }
    fprintf(out, "{\"end\":1}\n"); fclose(out); _exit(0);
}
#else
int main() { return 2; }
#endif
