#include "harness.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <poll.h>
#include <regex>
#include <sstream>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
using namespace std;
const vector<string> &sym_entered(); void sym_mem_begin(); void sym_mem_output(void *, size_t); vector<string> sym_mem_end(); void sym_mem_stop();
namespace sym { void add_conditions(z3::solver &s, const vector<Cond> &extra); }
z3::context &zctx();
namespace hs {
bool symbolic = true, validate = true; string tier = "quick"; double rtol = 1e-7, atol_ = 1e-9;
static string symlib, natlib; static void *hsym, *hnat;
function<void()> setup;
static vector<Case> cases;
static vector<Obl> obls; static vector<string> failed;
static sym::Env env; static map<string, string> envs; static vector<pair<string, array<double, 3>>> concrete; // label, code, oracle, ok
static double worst; static string worst_label; static double worst_code, worst_oracle; static double scale_;
static vector<tuple<string, double, double>> cmp;
void *fn(const char *name) {
    void *h = symbolic ? hsym : hnat; static unordered_map<string, void *> cs, cn; auto &c = symbolic ? cs : cn; auto it = c.find(name); if (it != c.end()) return it->second;
    void *p = dlsym(h, name); if (!p) throw SymError(string("library function missing: ") + name); c[name] = p; return p; }
S var(const string &name, bool positive) { return S(sym::var(name, positive)); }
S pi() { return S(sym::var("pi", true)); }
static volatile int *phase = nullptr;                     // shared with the parent: 1 while the oracle is evaluated
struct Ph { Ph() { if (phase) *phase = 1; } ~Ph() { if (phase) *phase = 0; } };
double in(S e) { if (symbolic) return e.v; Ph p; return (double) sym::evalq(e.v, env); }
vector<double> inv(const vector<S> &e) { vector<double> r; for (auto &x : e) r.push_back(in(x)); return r; }
void eq(const string &label, double code, S oracle) {
    if (symbolic) { obls.push_back({label, code, oracle.v}); return; }
    static unordered_map<Id, quad> memo; Ph ph; // env fixed within one process
    cmp.push_back({label, code, (double) sym::evalq(oracle.v, env, &memo)});
}
static vector<tuple<string, double, double, double>> pend; static int pend_var;
void eqint(const string &label, double code, S integrand, S r, S rest) { if (symbolic) { obls.push_back({label, code, (integrand + rest).v}); return; } pend.push_back({label, code, integrand.v, rest.v}); pend_var = sym::nodes[sym::handle_id(r.v)].k; }
bool less(S x, S y) { if (symbolic) return __sym_fcmp(4, x.v, y.v); Ph p; return sym::evalq(x.v, env) < sym::evalq(y.v, env); }
struct Pend2 { string label; double code, in, out; }; static vector<Pend2> pend2; static double pend_split;
void eqint2(const string &label, double code, S inner, S outer, S r, S r0) {
    if (symbolic) { obls.push_back({label, code, (less(r, r0) ? inner : outer).v}); return; }
    pend2.push_back({label, code, inner.v, outer.v}); pend_var = sym::nodes[sym::handle_id(r.v)].k; pend_split = r0.v; }
static void finish_integrals2() {        // tanh-sinh inside, exponential rule outside; halved until stable
    if (pend2.empty()) return; Ph ph; size_t n = pend2.size(); quad R = sym::evalq(pend_split, env), h = 0.125Q; vector<quad> sum(n, 0), last(n, 0); bool ok = false;
    for (int lev = 0; lev < 6 && !ok; lev++, h /= 2) {
        auto add = [&](quad x, quad w, bool in) { if (x < 1e-30Q || x > 1e4Q || !(fabsq(w) > 1e-40Q)) return; env[pend_var] = x; unordered_map<Id, quad> memo; for (size_t i = 0; i < n; i++) { quad v = sym::evalq(in ? pend2[i].in : pend2[i].out, env, &memo); if (finiteq(v)) sum[i] += w * v; } };
        for (size_t i = 0; i < n; i++) { last[i] = sum[i] * (2 * h); }
        quad st = lev ? 2 * h : h, o = lev ? h : 0;
        for (quad t = -4 + o; t <= 4; t += st) { quad u = M_PI_2q * sinhq(t), x = R / (1 + expq(-2 * u)), w = R * M_PI_2q * coshq(t) / (2 * coshq(u) * coshq(u)); add(x, w, true); }
        for (quad t = -4.5Q + o; t <= 9; t += st) { quad e = expq(t - expq(-t)); add(R + e, e * (1 + expq(-t)), false); }
        ok = lev > 0; for (size_t i = 0; i < n; i++) if (fabsq(sum[i] * h - last[i]) > 1e-11Q * fabsq(last[i]) + 1e-16Q) ok = false;
        if (ok) { for (size_t i = 0; i < n; i++) cmp.push_back({pend2[i].label, pend2[i].code, (double) (sum[i] * h)}); } }
    env[pend_var] = 1; if (!ok) throw SymError("radial quadrature of the oracle did not converge"); }
// trapezoidal rule in t for r = exp(t - exp(-t)), halved until stable
static void finish_integrals() {
    finish_integrals2(); if (pend.empty()) return; Ph ph; size_t n = pend.size(); vector<quad> sum(n, 0), prev(n, 0);
    auto acc = [&](quad t) { quad r = expq(t - expq(-t)), w = r * (1 + expq(-t)); if (r < 1e-30Q || r > 1e4Q) return; env[pend_var] = r; unordered_map<Id, quad> memo; for (size_t i = 0; i < n; i++) { quad v = sym::evalq(get<2>(pend[i]), env, &memo); if (finiteq(v)) sum[i] += w * v; } };
    quad h = 0.0625Q; for (quad t = -4.5Q; t <= 9; t += h) acc(t);
    bool ok = false;
    for (int k = 0; k < 5 && !ok; k++) { for (size_t i = 0; i < n; i++) prev[i] = sum[i] * h; quad h2 = h / 2; for (quad t = -4.5Q + h2; t <= 9; t += h) acc(t); h = h2; ok = true; quad sc = 0; for (size_t i = 0; i < n; i++) { quad a = fabsq(sum[i] * h); if (a > sc) sc = a; } for (size_t i = 0; i < n; i++) if (fabsq(sum[i] * h - prev[i]) > 1e-14Q + 1e-10Q * sc) ok = false; }
    if (!ok) throw SymError("radial quadrature of the oracle did not converge");
    for (size_t i = 0; i < n; i++) { env[pend_var] = 1; cmp.push_back({get<0>(pend[i]), get<1>(pend[i]), (double)(sum[i] * h + sym::evalq(get<3>(pend[i]), env))}); }
}
void eqd(const string &label, double code, double code2) { if (symbolic) obls.push_back({label, code, code2}); else cmp.push_back({label, code, code2}); }
void expect(bool ok, const string &label) { if (!ok) failed.push_back(label); }
void frame_begin() { sym_mem_begin(); }
void frame_output(void *p, size_t n) { sym_mem_output(p, n); }
static long nframe = 0;
void fail(const string &w) { for (auto &x : failed) if (x == w) return; failed.push_back(w); }
void frame_end() { nframe++; for (auto &t : sym_mem_end()) failed.push_back(t); }
void assume(S x, int rel) { if (symbolic) sym::assume(x.v, rel); }
void assume_between(S x, S lo, S hi) { assume(x - lo, 1); assume(hi - x, 1); }
void add(const string &id, function<void()> body, int maxpaths, const string &note) { cases.push_back({id, body, maxpaths, note}); }
libgrpp_shell_t *shell(const vector<S> &o, int L, const vector<S> &c, const vector<S> &a) { auto O = inv(o), C = inv(c), A = inv(a); return LG(libgrpp_new_shell)(O.data(), L, (int) C.size(), C.data(), A.data()); }
libgrpp_potential_t *potential(int L, int J, const vector<int> &p, const vector<S> &c, const vector<S> &a) { auto P = p; auto C = inv(c), A = inv(a); return LG(libgrpp_new_potential)(L, J, (int) C.size(), P.data(), C.data(), A.data()); }

// ---------------------------------------------------------------- concrete execution
struct Replay { bool ran = false, bad = false; string text; };
static string sanit(string s) { for (auto &c : s) if (c == '\n' || c == '"' || c == '\\') c = ' '; return s; }
// slack: factor on the tolerances (paths already proved equal over the reals can differ only by rounding)
static Replay concrete_run(const Case &c, const map<string, string> &m, bool verbose = false, double slack = 1) {
    int pfd[2]; if (pipe(pfd)) return {};
    if (!phase) phase = (volatile int *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *phase = 0;
    fflush(0); pid_t pid = fork();
    if (pid == 0) {
        for (int g : {SIGILL, SIGSEGV, SIGBUS, SIGFPE, SIGABRT}) signal(g, SIG_DFL);
        close(pfd[0]); symbolic = false; env.clear(); cmp.clear(); failed.clear(); pend.clear(); pend2.clear(); alarm(200);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        int dn = open("/dev/null", O_WRONLY); if (!verbose) { dup2(dn, 1); dup2(dn, 2); }
        for (auto &kv : m) { string v = kv.second; v.erase(remove(v.begin(), v.end(), '?'), v.end()); sym::var(kv.first); quad q; auto sl = v.find('/'); if (sl != string::npos) q = strtoflt128(v.substr(0, sl).c_str(), 0) / strtoflt128(v.substr(sl + 1).c_str(), 0); else q = strtoflt128(v.c_str(), 0); env[sym::var_index(kv.first)] = q; }
        string out; bool bad = false;
        auto say = [&](const string &s) { string t = s + "\n"; (void) !write(pfd[1], t.data(), t.size()); };
        say("START");
        try {
            if (setup) setup();
            c.body(); finish_integrals();
        } catch (SymError &e) { say(string("ERR ") + e.what()); _exit(0); } catch (std::bad_alloc &) { say("ERR memory"); _exit(0); } catch (std::exception &e) { say(string("ERR ") + e.what()); _exit(0); }
        double scale = 0; for (auto &t : cmp) { if (std::isfinite(get<2>(t))) scale = max(scale, fabs(get<2>(t))); }
        double wr = -1; string wl;
        for (auto &t : cmp) { double cd = get<1>(t), o = get<2>(t); double d = fabs(cd - o), tol = slack * (atol_ + rtol * max(fabs(o), scale * 1e-3)); bool b = !(d <= tol); if (!std::isfinite(cd) && std::isfinite(o)) b = true; if (std::isnan(cd) && std::isnan(o)) b = false;
            if (verbose) fprintf(stderr, "  %-40s code % .15e  oracle % .15e  %s\n", get<0>(t).c_str(), cd, o, b ? "MISMATCH" : "ok");
            if (b) { double r = std::isfinite(d) ? d / tol : 1e300; if (r > wr) { wr = r; char buf[400]; snprintf(buf, 400, "%s: library %.15g, specification %.15g", get<0>(t).c_str(), cd, o); wl = buf; } bad = true; } }
        if (!failed.empty()) { bad = true; wl = failed[0]; if (verbose) for (auto &f : failed) fprintf(stderr, "  FAILED %s\n", f.c_str()); }
        say(string(bad ? "BAD " : "OK ") + sanit(wl)); _exit(0);
    }
    close(pfd[1]); string out; char b[4096]; ssize_t k; while ((k = read(pfd[0], b, sizeof b)) > 0) out.append(b, k); close(pfd[0]);
    int st; waitpid(pid, &st, 0); Replay r;
    stringstream ss(out); string line; bool fin = false;
    while (getline(ss, line)) { if (line == "START") r.ran = true; else if (!line.compare(0, 4, "BAD ")) { r.bad = true; r.text = line.substr(4); fin = true; } else if (!line.compare(0, 3, "OK ")) { fin = true; r.text = "ok"; } else if (!line.compare(0, 4, "ERR ")) { fin = true; r.text = line; r.ran = false; } }
    if (r.ran && !fin) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r.ran = false; r.text = "timeout"; }
        else if (*phase || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { r.ran = false; r.text = "oracle evaluation failed"; }
        else { r.bad = true; r.text = WIFSIGNALED(st) ? string("the library call dies with signal ") + strsignal(WTERMSIG(st)) : string("the library call terminates the process, exit status ") + to_string(WEXITSTATUS(st)); } }
    return r;
}
using sym::path_models;
// ---------------------------------------------------------------- symbolic execution of one case
static string replay_dir; static FILE *res_;
static string write_replay(const Case &c, const map<string, string> &m) {
    string n = c.id; for (auto &ch : n) if (!isalnum(ch) && ch != '-' && ch != '_' && ch != '.') ch = '_';
    string f = replay_dir + "/" + n + ".replay"; ofstream o(f); o << "case " << c.id << "\n"; for (auto &kv : m) o << kv.first << " " << kv.second << "\n"; return f; }
// a fatal signal while the library is executed symbolically ends the case: the inputs of the current path are replayed
static function<void(const string &)> on_fatal; static volatile int fatal_seen;
static void fatal_signal(int g) { if (fatal_seen || !on_fatal) { signal(g, SIG_DFL); raise(g); return; } fatal_seen = 1; sigset_t s; sigemptyset(&s); sigaddset(&s, g); sigprocmask(SIG_UNBLOCK, &s, nullptr); on_fatal(string("signal ") + strsignal(g)); fflush(0); _exit(0); }
static void run_case(const Case &c) {
    long proved = 0, validated = 0, nobl = 0; int viol = 0; long unconf = 0; string why, inconc; string vtext, vfile; auto t0 = chrono::steady_clock::now();
    auto try_models = [&](const vector<map<string, string>> &ms, const string &what) { for (auto &m : ms) { auto r = concrete_run(c, m); if (r.ran && r.bad) { viol++; vtext = r.text; vfile = write_replay(c, m); return true; } if (r.ran) validated++; } (void) what; return false; };
    int hunts = 0; double hunted = 0; unsigned hseed = 7;
    auto wrapped = [&]() {
        if (viol && hunts) throw SymError("counterexample found"); obls.clear(); failed.clear(); nframe = 0; sym_mem_stop(); sym::clear_assumptions();
        string stop;
        try { c.body(); } catch (PathAbort &p) { if (p.why == "exhausted" || p.why == "infeasible path") throw; stop = p.why; }
        catch (SymError &e) { stop = string("engine: ") + e.what(); inconc = e.what(); }
        if (!stop.empty()) { if (!viol) { if (!try_models(path_models(4), stop)) { if (inconc.empty()) unconf++; why = stop; } } throw PathAbort{"infeasible path"}; }
        if (!failed.empty()) { if (!viol && !try_models(path_models(4), failed[0])) { unconf++; why = failed[0]; } return; }
        if (viol) return;
        EqResult r; nobl += obls.size() + nframe;
        try { r = decide_equal(obls); } catch (SymError &e) { inconc = e.what(); try_models(path_models(4), inconc); return; }
        if (r.proved) { proved += obls.size() + nframe; auto ms = validate ? path_models(1) : vector<map<string, string>>(); if (ms.size()) { auto rr = concrete_run(c, ms[0], false, 300); if (rr.ran && rr.bad) { viol++; vtext = rr.text; vfile = write_replay(c, ms[0]); } else if (rr.ran) validated++; else { why = rr.text; } } return; }
        if (r.inconclusive) { inconc = "no model for " + r.label; }
        if (!try_models(r.models, r.label)) { unconf++; why = "difference not reproduced: " + r.label; }
    };
    int paths = 0;
    // a comparison with a small constant: look first for a point just inside it (all variables but one at random values, the solver finds the last)
    sym::on_threshold = [&](double x, const mpq_class &cc) {
        if (viol || hunts++ > 40 || hunted > 60) return; auto h0 = chrono::steady_clock::now(); auto save = sym::pathcond; S X(x), C(sym::rat(cc)), H(sym::rat(cc / 2));
        sym::pathcond = {{(X - C).v, cc > 0 ? 3 : 1}, {(X - H).v, cc > 0 ? 1 : 3}}; vector<map<string, string>> ms;
        try { int nv = sym::varname.size(); for (int t = 0; t < 8 && ms.size() < 2; t++) {
            z3::solver q(zctx()); z3::params pp(zctx()); pp.set("timeout", 1500u); q.set(pp); sym::add_conditions(q, {}); int fr = -1; hseed = hseed * 1103515245 + 12345; fr = (hseed >> 16) % nv;
            for (int k = 0; k < nv; k++) { if (sym::varname[k] == "pi" || k == fr) continue; hseed = hseed * 1103515245 + 12345; unsigned r = hseed >> 16 & 0x7fff; int v = 3 + r % 29; if (!sym::varpos[k] && (r & 4096)) v = -v; q.add(zctx().real_const(sym::varname[k].c_str()) == zctx().real_val(v, 16)); }
            sym::st_branch.queries++; if (q.check() == z3::sat) ms.push_back(sym::model_values(q.get_model())); } } catch (SymError &) { } catch (z3::exception &) { }
        sym::pathcond = save; for (auto &m : ms) { auto r = concrete_run(c, m); if (getenv("VERIF_DUMP")) fprintf(stderr, "threshold %g: %s\n", cc.get_d(), r.text.c_str()); if (r.ran && r.bad) { viol++; vtext = r.text; vfile = write_replay(c, m); break; } }
        hunted += chrono::duration<double>(chrono::steady_clock::now() - h0).count(); if (viol) throw SymError("counterexample found"); };
    auto report = [&]() {
        double secs = chrono::duration<double>(chrono::steady_clock::now() - t0).count();
        ostringstream o; string fns; for (auto &f : sym_entered()) fns += (fns.empty() ? "" : ",") + f;
        o << "RESULT\t" << c.id << "\t" << (viol ? "violation" : !inconc.empty() ? "inconclusive" : unconf ? "unconfirmed" : "proved") << "\t" << paths << "\t" << proved << "\t" << nobl << "\t" << validated << "\t" << sym::st_eq.queries << "\t" << sym::st_eq.secs << "\t" << sym::st_branch.queries << "\t" << sym::st_branch.secs << "\t" << sym::n_tiny << "\t" << sym::n_steps << "\t" << secs << "\t" << sanit(viol ? vtext : !inconc.empty() ? inconc : why) << "\t" << vfile << "\t" << fns << "\t" << sanit(c.note) << "\n";
        fputs(o.str().c_str(), stdout); fflush(stdout); };
    on_fatal = [&](const string &w) { if (!viol) { string f = failed.empty() ? w : failed[0]; if (!try_models(path_models(4), f)) inconc = "the symbolic run dies: " + f; } report(); };
    for (int g : {SIGILL, SIGSEGV, SIGBUS, SIGFPE, SIGABRT}) signal(g, fatal_signal);
    try { if (setup) setup(); paths = sym::explore(wrapped, c.maxpaths); } catch (SymError &e) { inconc = e.what(); if (!viol) try_models(path_models(4), inconc); } catch (PathAbort &p) { inconc = p.why; } catch (z3::exception &e) { inconc = string("z3: ") + e.msg(); } catch (std::bad_alloc &) { inconc = "memory"; }
    report();
}
int main_(int argc, char **argv, const function<void()> &declare) {
    string only, replay, filter; bool list = false; int jobs = 8; double limit = 600, caselimit = 400; long memmb = 3800;
    replay_dir = "."; if (getenv("VERIF_TIER")) tier = getenv("VERIF_TIER");
    for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--sym") symlib = nx(); else if (a == "--nat") natlib = nx(); else if (a == "--case") only = nx(); else if (a == "--replay") replay = nx(); else if (a == "--list") list = true; else if (a == "--tier") tier = nx(); else if (a == "--jobs") jobs = stoi(nx()); else if (a == "--limit") limit = stod(nx()); else if (a == "--caselimit") caselimit = stod(nx()); else if (a == "--dir") replay_dir = nx(); else if (a == "--filter") filter = nx(); else if (a == "--mem") memmb = stol(nx()); }
    sym::var("pi", true);
    if (!natlib.empty()) { hnat = dlopen(natlib.c_str(), RTLD_NOW | RTLD_LOCAL); if (!hnat) { fprintf(stderr, "%s\n", dlerror()); return 3; } }
    if (!symlib.empty()) { hsym = dlopen(symlib.c_str(), RTLD_NOW | RTLD_LOCAL); if (!hsym) { fprintf(stderr, "%s\n", dlerror()); return 3; } }
    declare();
    if (!filter.empty()) { regex re(filter); vector<Case> c2; for (auto &c : cases) if (regex_match(c.id, re)) c2.push_back(c); cases = c2; }
    if (list) { for (auto &c : cases) printf("%s\t%s\n", c.id.c_str(), c.note.c_str()); return 0; }
    if (!replay.empty()) {
        ifstream f(replay); string k, v, id; map<string, string> m; while (f >> k) { f >> v; if (k == "case") id = v; else m[k] = v; }
        for (auto &c : cases) if (c.id == id) { Replay r = concrete_run(c, m, true); printf("%s\n", r.bad ? ("VIOLATION reproduced: " + r.text).c_str() : r.ran ? "not reproduced" : ("not runnable: " + r.text).c_str()); return r.bad ? 1 : 0; }
        fprintf(stderr, "no case %s\n", id.c_str()); return 3;
    }
    if (!only.empty()) { for (auto &c : cases) if (c.id == only) { run_case(c); return 0; } return 3; }
    // tables are built once and inherited by the forked workers
    if (setup) { try { setup(); } catch (std::exception &e) { fprintf(stderr, "setup: %s\n", e.what()); } catch (PathAbort &p) { fprintf(stderr, "setup: %s\n", p.why.c_str()); } }
    // scheduler: one forked process per case
    auto t0 = chrono::steady_clock::now(); auto now = [&]() { return chrono::duration<double>(chrono::steady_clock::now() - t0).count(); };
    struct Job { pid_t pid; int fd; size_t ci; double start; string out; }; vector<Job> run; size_t next = 0; vector<char> done(cases.size(), 0);
    while (next < cases.size() || !run.empty()) {
        while (next < cases.size() && (int) run.size() < jobs && now() < limit) {
            int p[2]; if (pipe(p)) return 3; fflush(0); pid_t pid = fork();
            if (pid == 0) { close(p[0]); dup2(p[1], 1); struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t) memmb << 20; setrlimit(RLIMIT_AS, &rl); rl.rlim_cur = rl.rlim_max = (rlim_t)(caselimit + 5); setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); setpgid(0, 0); try { run_case(cases[next]); } catch (std::bad_alloc &) { } fflush(0); _exit(0); }
            close(p[1]); setpgid(pid, pid); run.push_back({pid, p[0], next, now(), ""}); next++;
        }
        if (run.empty()) break;
        vector<pollfd> pf; for (auto &j : run) pf.push_back({j.fd, POLLIN, 0}); poll(pf.data(), pf.size(), 500);
        for (size_t i = run.size(); i-- > 0;) { auto &j = run[i]; bool over = now() - j.start > caselimit || now() > limit;
            if (pf[i].revents & (POLLIN | POLLHUP)) { char b[65536]; ssize_t k = read(j.fd, b, sizeof b); if (k > 0) { j.out.append(b, k); continue; }
                close(j.fd); int st; waitpid(j.pid, &st, 0); 
                if (j.out.find("RESULT\t") == string::npos) j.out += "RESULT\t" + cases[j.ci].id + "\tinconclusive\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t" + to_string(now() - j.start) + "\tworker died: " + (WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : to_string(st)) + "\t\t\t\n";
                fputs(j.out.c_str(), stdout); fflush(stdout); run.erase(run.begin() + i); continue; }
            if (over) { kill(-j.pid, SIGKILL); kill(j.pid, SIGKILL); int st; waitpid(j.pid, &st, 0); close(j.fd); printf("RESULT\t%s\tinconclusive\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t%g\ttime limit\t\t\t\n", cases[j.ci].id.c_str(), now() - j.start); fflush(stdout); run.erase(run.begin() + i); } }
        if (now() > limit && next < cases.size()) { for (; next < cases.size(); next++) printf("RESULT\t%s\tskipped\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\t0\ttime limit of the run\t\t\t\n", cases[next].id.c_str()); }
    }
    return 0;
}
}
