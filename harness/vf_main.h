// main() of a replayer
#pragma once
static int vf_fd = -1;
static void vf_write(const std::string& s) {
    size_t o = 0;
    while (o < s.size()) { auto n = write(vf_fd, s.data() + o, s.size() - o); if (n <= 0) _exit(97); o += n; }
}
static void vf_alarm(int) { const char m[] = "!HANG\n"; (void)!write(vf_fd, m, sizeof m - 1); _exit(98); }

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    vf_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    signal(SIGALRM, vf_alarm);
    std::string line;
    std::unique_ptr<vf::World> w;
    auto fin = [&] {
        if (!w) return;
        alarm(vf_op_timeout);
        w.reset();
        vf_write(vf_fini() + "\n");
    };
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        std::string name; ss >> name;
        if (name.empty()) continue;
        if (name == "W") {          // start of a walk: fresh world
            fin();
            std::string id; ss >> id;
            vf_write("W " + id + "\n");
            alarm(vf_op_timeout);
            w.reset(vf_make_world());
            continue;
        }
        vf::Args a; std::string t;
        while (ss >> t) a.push_back(t);
        alarm(vf_op_timeout);
        std::string r;
        try { r = w->op(name, a); }
        catch (const std::exception& e) { r = vf::Obj().t("escaped", e.what()).end(); }
        catch (...) { r = vf::Obj().t("escaped", "?").end(); }
        vf_write(r + "\n");
    }
    fin();
    alarm(0);
    vf_write("!END\n");
    fflush(stdout);
    _exit(0);
}
