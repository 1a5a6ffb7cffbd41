// C13: the tuning configuration.
#include "ck.h"
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
using namespace mc;
namespace {
std::string dir;                                        // scratch directory of this process
void cleanup() { for (const char *f : {"/c.lua", "/d.lua", "/log"}) unlink((dir + f).c_str()); rmdir(dir.c_str()); }
std::string file(const char *n) {
    if (dir.empty()) { char t[] = "/tmp/mctune.XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(9); } dir = t; }
    return dir + n;
}
void write(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::trunc); o << s; }
std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
// what the configuration prescribes: routine -> entry, parameters it sets, and the arguments it is given (positions in the call; sums allowed)
struct Spec { const char *entry, *sets, *args; char type; };
std::map<std::string, Spec> specs() {
    std::map<std::string, Spec> s;
    auto put = [&](const char *names, const char *entry, const char *sets, const char *args, char type = 0) { std::istringstream i(names); std::string n; while (i >> n) s[n] = {entry, sets, args, type}; };
    put("gbmm", "gbmm", "n", "3 4 5 6 7");
    put("gbtrf", "gbtrf", "nip", "2 3+4+1"); put("gbsv zcgbsv dsgbsv", "gbtrf", "nip", "1 2+3+1"); put("gbtrs", "gbtrf", "nip", "2 3+4+1");
    put("geadd", "geadd", "n", "2 3"); put("geinv", "geinv", "nip", "1 2");
    put("geqrf geqrs ungqr orgqr", "geqrf", "ni", "1 2"); put("gelqf gelqs unglq orglq", "gelqf", "ni", "1 2");
    put("unmqr ormqr", "geqrf", "ni", "3 4"); put("unmlq ormlq", "gelqf", "ni", "3 4"); put("gels", "geqrf", "ni", "2 3");
    put("gemm", "gemm", "n", "3 4 5"); put("geswp", "geswp", "n", "2 3");
    put("getrf", "getrf", "nip", "1 2"); put("gesv getri", "getrf", "nip", "1 1"); put("zcgesv", "getrf", "nip", "1 1", 'C'); put("dsgesv", "getrf", "nip", "1 1", 'S');
    put("getrs hetrs sytrs potrs pbtrs", "trsm", "n", "2 2"); put("hetrf sytrf hesv sysv", "hetrf", "n", "2");
    put("symm hemm", "symm", "n", "3 4"); put("syrk herk", "syrk", "n", "3 4"); put("syr2k her2k", "syr2k", "n", "3 4");
    put("lacpy", "lacpy", "n", "3 4"); put("lag2c lag2s", "lag2c", "n", "1 2"); put("lange", "lange", "n", "2 3"); put("lansy lanhe", "lansy", "n", "3"); put("lantr", "lantr", "n", "4 5");
    put("lascl", "lascl", "n", "4 5"); put("laset", "laset", "n", "2 3"); put("lauum", "lauum", "n", "2"); put("pbtrf pbsv", "pbtrf", "n", "2"); put("poinv", "poinv", "n", "2");
    put("potrf posv", "potrf", "n", "2"); put("zcposv", "potrf", "n", "2", 'C'); put("dsposv", "potrf", "n", "2", 'S'); put("potri", "trtri", "n", "2"); put("trtri", "trtri", "n", "3");
    put("tradd", "tradd", "n", "3 4"); put("trmm", "trmm", "n", "5 6"); put("trsm", "trsm", "n", "5 6");
    put("amax getri_aux langb gesdd stevx2 lag2z lag2d", "", "", "");
    return s;
}
const char *ENTRIES[] = {"gbmm", "gbtrf", "geadd", "geinv", "gelqf", "gemm", "geqrf", "geswp", "getrf", "hetrf", "lacpy", "lag2c", "lange", "lansy", "lantr", "lascl", "laset", "lauum", "pbtrf", "poinv", "potrf", "symm", "syr2k", "syrk", "tradd", "trmm", "trsm", "trtri"};
std::string full(char s) { return s == 'n' ? "_nb" : s == 'i' ? "_ib" : "_max_panel_threads"; }
// a configuration whose entries log their arguments and return given values; `skip` is not defined, `bad` has another body
std::string logging(const std::string &fault_entry = "", const std::string &fault = "") {
    std::string c = "local f = function(name, v, ...) local h = io.open(\"" + file("/log") + "\", \"a\"); h:write(name); for i, a in ipairs({...}) do h:write(\" \" .. tostring(a)) end; h:write(\"\\n\"); h:close(); return v end\n"; int k = 0;
    for (auto e : ENTRIES) for (char s : std::string("nip")) { std::string n = e + full(s); int v = (s == 'n' ? 11 : s == 'i' ? 3 : 2) + k % 2; if (n == fault_entry) c += fault + "\n"; else c += "function " + n + "(...) return f(\"" + n + "\", " + std::to_string(v) + ", ...) end\n"; if (s == 'p') k++; }
    return c;
}
int value(const std::string &entry, char s) { int k = 0; for (auto e : ENTRIES) { if (entry == e) break; k++; } return (s == 'n' ? 11 : s == 'i' ? 3 : 2) + k % 2; }
// what a function of a configuration returns, by an interpreter of our own
extern "C" { struct lua_State; lua_State *luaL_newstate(); void luaL_openlibs(lua_State *); int luaL_loadfilex(lua_State *, const char *, const char *); int lua_pcallk(lua_State *, int, int, int, long, void *); int lua_getglobal(lua_State *, const char *); const char *lua_pushstring(lua_State *, const char *); void lua_pushinteger(lua_State *, long long); double lua_tonumberx(lua_State *, int, int *); int lua_type(lua_State *, int); void lua_settop(lua_State *, int); void lua_close(lua_State *); }
std::string shipped() { const char *r = getenv("MC_REPO"); return std::string(r ? r : "/repo") + "/tuning/default.lua"; }
struct Lua {
    lua_State *L; bool ok;
    Lua(const std::string &f) { L = luaL_newstate(); luaL_openlibs(L); ok = luaL_loadfilex(L, f.c_str(), nullptr) == 0 && lua_pcallk(L, 0, 0, 0, 0, nullptr) == 0; }
    ~Lua() { lua_close(L); }
    // 0: no such function, or a useless answer
    int ask(const std::string &fn, char type, const std::vector<int> &args) {
        lua_settop(L, 0); lua_getglobal(L, fn.c_str()); if (lua_type(L, 1) != 6 /* function */) return 0;
        char t[2] = {type, 0}; lua_pushstring(L, t); for (int a : args) lua_pushinteger(L, a);
        if (lua_pcallk(L, 1 + (int)args.size(), 1, 0, 0, nullptr)) return 0;
        double v = lua_tonumberx(L, -1, nullptr); return v >= 1 ? (int)v : 0;
    }
};
struct Got { int nb = -1, ib = -1, pt = -1; };
Got settings() { Got g; plasma_get(PlasmaNb, &g.nb); plasma_get(PlasmaIb, &g.ib); plasma_get(PlasmaNumPanelThreads, &g.pt); return g; }
const int SNB = 5, SIB = 4, SPT = 3;
// one call under a configuration: the call itself ends at its first memory request
struct Out { Got g; Result r; std::vector<std::string> args; bool initialized = true; };
int first_request = 0;
Out once(const Case &cs, bool tuning, int repeat = 1, int T = 3) {
    Out o; Cx c; c.env = cs.env; Sched s = sched(T); (void)first_request;
    s.fail_at = INT_MAX;
    auto body = [&] {
        if (plasma_init()) { o.initialized = false; return; }
        plasma_set(PlasmaTuning, tuning ? PlasmaEnabled : PlasmaDisabled); plasma_set(PlasmaNb, SNB); plasma_set(PlasmaIb, SIB); plasma_set(PlasmaNumPanelThreads, SPT);
        for (int i = 0; i < repeat; i++) cs.body(c);
        o.g = settings(); plasma_finalize();
    };
    if (repeat == 1) { u64 n = 0; run(sched(T), [&] { plasma_init(); n = alloc_count(); plasma_finalize(); }); s.fail_at = (int)n + 1; unlink(file("/log").c_str()); }
    o.r = run(s, body); K.account(o.r);
    for (auto &x : c.outs) if (x.first == "arg") o.args.push_back(x.second);
    return o;
}
std::string plain(const std::string &key) { std::string r = routine_of(key); if (r.substr(0, 2) == "zc" || (r.substr(0, 2) == "ds" && r != "dsymm" && r != "dsyrk" && r != "dsyr2k" && r != "dsysv" && r != "dsytrf" && r != "dsytrs" && r != "dstevx2")) return r; return r.substr(1); }
}
CHECK(C13) {
    containment = true; monitor = false;
    auto sp = specs(); std::string cfg = file("/c.lua"); int faults = 0;
    const std::vector<std::pair<const char *, const char *>> FAULTS = {{"missing", ""}, {"zero", "function % () return 0 end"}, {"negative", "function % () return -3 end"}, {"nil", "function % () return nil end"}, {"no value", "function % () end"}, {"text", "function % () return 'x' end"}, {"error", "function % () error('no') end"}, {"a number", "% = 8"}, {"a table", "% = {}"}, {"returns a table", "function % () return {} end"}, {"true", "function % () return true end"}, {"two values", "function % () return 0, 7 end"}};
    auto leak = [&](const Out &o, const std::string &rt) { if (o.r.lua_live) { K.viol(rt + ":leak", "the configuration is not released"); return true; } return false; };
    each_case(G_TUNE, {enum_args}, [&](Case &cs) {
        std::string rt = routine_of(cs.key), nm = plain(cs.key); auto it = sp.find(nm);
        if (it == sp.end()) return;                     // a routine without a prescription here
        Spec q = it->second; K.interesting();
        char type = q.type ? q.type : (char)toupper(rt[0]);
        // 1. every entry present: the right ones are asked, with the right arguments, and take effect
        write(cfg, logging()); set_env("PLASMA_TUNING_FILENAME", cfg.c_str());
        auto bad = [&](const Out &o) { set_env("PLASMA_TUNING_FILENAME", nullptr); if (o.r.out != OK) { K.viol(rt + ":" + outcome_name[o.r.out], o.r.msg); return true; } return leak(o, rt); };
        auto effect = [&](const Out &o, int nb, int ib, int pt, const std::string &what) { if (o.g.nb != nb || o.g.ib != ib || o.g.pt != pt) { char b[200]; snprintf(b, sizeof b, "%s: the call used nb=%d ib=%d panel threads=%d, expected %d, %d, %d", what.c_str(), o.g.nb, o.g.ib, o.g.pt, nb, ib, pt); K.viol(rt + ":value", b); return false; } return true; };
        Out o = once(cs, true); if (bad(o)) return;
        std::string want, entry = q.entry, sets = q.sets; auto A = [&](int i) { return atoi(o.args[i].c_str()); };
        if (nm == "gels" && A(2) < A(3)) entry = "gelqf";
        std::string args; { std::istringstream is(q.args); std::string w; while (is >> w) { int v = 0; std::istringstream ws(w); std::string t; bool one = true; (void)one; std::vector<std::string> parts; while (std::getline(ws, t, '+')) parts.push_back(t); for (size_t i = 0; i < parts.size(); i++) v += parts.size() > 1 && i == parts.size() - 1 ? 1 : A(atoi(parts[i].c_str())); args += " " + std::to_string(v); } }
        for (char c : sets) want += entry + full(c) + " " + type + " 3" + args + "\n";
        std::string log = slurp(file("/log"));
        auto sorted = [](const std::string &s) { std::vector<std::string> l; std::istringstream i(s); std::string x; while (std::getline(i, x)) l.push_back(x); std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end()); std::string r; for (auto &y : l) r += y + "; "; return r; };
        if (sorted(log) != sorted(want)) { K.viol(rt + ":entries", "the configuration was asked for " + sorted(log) + "expected " + sorted(want)); return; }
        auto has = [&](char c) { return sets.find(c) != std::string::npos; };
        int nb = has('n') ? value(entry, 'n') : SNB, ib = has('i') ? value(entry, 'i') : SIB, pt = has('p') ? value(entry, 'p') : SPT;
        if (!effect(o, nb, ib, pt, "all entries present")) return;
        K.extra["entries_asked"] += sets.size();
        // 2. tuning switched off: nothing is asked
        set_env("PLASMA_TUNING_FILENAME", cfg.c_str()); o = once(cs, false); if (bad(o)) return;
        if (!effect(o, SNB, SIB, SPT, "tuning disabled")) return;
        if (!slurp(file("/log")).empty()) { K.viol(rt + ":entries", "the configuration was asked though tuning is disabled"); return; }
        // 3. one entry missing or faulty: its setting stays, the others are tuned
        if (K.tier || nm != "gemm") for (char c : sets) for (auto &f : FAULTS) {
            if (!K.tier && cs.key.find(" ") != std::string::npos && (K.idx + faults++) % 3 && strcmp(f.first, "missing") && rt[0] != 'z') continue;
            std::string e = entry + full(c), fb = f.second; for (size_t p; (p = fb.find('%')) != std::string::npos;) fb.replace(p, 1, e);
            write(cfg, logging(e, fb)); set_env("PLASMA_TUNING_FILENAME", cfg.c_str());
            Out o2 = once(cs, true); K.extra["faulty_entries"]++; if (bad(o2)) return;
            if (!effect(o2, c == 'n' ? SNB : nb, c == 'i' ? SIB : ib, c == 'p' ? SPT : pt, e + " " + f.first)) return;
        }
        // the configuration that is shipped: its values take effect, and they are ones the routines accept
        static Lua def(shipped()); std::vector<int> vals = {3}; { std::istringstream is(args); int v; while (is >> v) vals.push_back(v); }
        if (def.ok) {
            set_env("PLASMA_TUNING_FILENAME", shipped().c_str()); Out o3 = once(cs, true); if (bad(o3)) return;
            auto pick = [&](char c, int set) { int v = has(c) ? def.ask(entry + full(c), type, vals) : 0; return v ? v : set; };
            if (!effect(o3, pick('n', SNB), pick('i', SIB), pick('p', SPT), "the configuration shipped")) return;
            for (char c : sets) { int v = def.ask(entry + full(c), type, vals); if (v) K.extra["shipped_entries"]++; }
        }
        if (K.cases % 64 == 1) K.sample(cs.key + ": asks " + sorted(want));
    });
    if (!Lua(shipped()).ok) { if (K.w == 0) K.viol("file:shipped", "the configuration shipped does not load"); }
    // 4. the file itself: missing, unreadable, faulty; entries that stay faulty for many calls; another file after finalize
    struct FileCase { const char *name; int kind; const char *text; bool tuned; };
    const FileCase FC[] = {{"not set", 0, "", false}, {"missing", 1, "", false}, {"a directory", 2, "", false}, {"empty", 3, "", false}, {"syntax error", 3, "function gemm_nb(", false}, {"error while loading", 3, "error('no')", false}, {"error after the entry", 3, "function gemm_nb() return 9 end error('no')", false}, {"good", 3, "function gemm_nb(t, p, m, n, k) return 9 end", true}, {"by type", 3, "function gemm_nb(t, p, m, n, k) if t == 'D' then return 9 end return 7 end", true}, {"by size", 3, "function gemm_nb(t, p, m, n, k) return m * 100 + n * 10 + k end", true}};
    auto one = [&](const FileCase &f, int hist, Got &g1, Got &g2, bool &rcok) {
        if (f.kind == 0) set_env("PLASMA_TUNING_FILENAME", nullptr); else if (f.kind == 1) set_env("PLASMA_TUNING_FILENAME", (file("/none")).c_str()); else if (f.kind == 2) set_env("PLASMA_TUNING_FILENAME", dir.c_str()); else { write(cfg, f.text); set_env("PLASMA_TUNING_FILENAME", cfg.c_str()); }
        (void)g2; rcok = true;
        Result r = run(sched(2), [&] {
            double *A = (double *)ualloc(60 * 8, "A"); for (int i = 0; i < 60; i++) A[i] = i % 7;
            auto gemm = [&] { return plasma_dgemm(PlasmaNoTrans, PlasmaNoTrans, 1, 2, 3, 1.0, A, 3, A + 20, 3, 0.0, A + 40, 3); };
            for (int h = 0; h < hist; h++) {
                if (plasma_init()) rcok = false;
                plasma_set(PlasmaNb, 5); for (int c = 0; c < (h ? 1 : 40); c++) if (gemm()) rcok = false;
                plasma_get(PlasmaNb, &g1.nb); if (plasma_finalize()) rcok = false;
                int want = !f.tuned ? 5 : !strcmp(f.name, "by size") ? 123 : 9; if (g1.nb != want) { K.viol("file:value", std::string("configuration ") + f.name + ": the tile size in effect is " + std::to_string(g1.nb) + ", expected " + std::to_string(want)); return; }
            }
        });
        set_env("PLASMA_TUNING_FILENAME", nullptr); K.account(r); return r;
    };
    for (auto &f : FC) for (int hist = 1; hist <= 3; hist++) {
        std::string key = std::string("configuration ") + f.name + " x" + std::to_string(hist);
        if (!K.only.empty()) { K.idx++; if (K.only != key) continue; } else if (!K.mine()) continue;
        K.begin(key); K.interesting(); Got a, b; bool rcok; Result r = one(f, hist, a, b, rcok);
        if (r.out != OK) K.viol(std::string("file:") + outcome_name[r.out], r.msg); else if (!rcok) K.viol("file:code", "a call failed under this configuration"); else if (r.lua_live || r.live) K.viol("file:leak", "the configuration is not released: " + r.leaks);
    }
    // faulty entries for many calls, then the next initialization
    for (auto &f : FAULTS) {
        std::string key = std::string("entry ") + f.first + ", many calls";
        if (!K.only.empty()) { K.idx++; if (K.only != key) continue; } else if (!K.mine()) continue;
        K.begin(key); K.interesting(); std::string fb = f.second; for (size_t p; (p = fb.find('%')) != std::string::npos;) fb.replace(p, 1, "gemm_nb");
        FileCase fc{f.first, 3, fb.c_str(), false}; Got a, b; bool rcok; Result r = one(fc, 3, a, b, rcok);
        if (r.out != OK) K.viol(std::string("file:") + outcome_name[r.out], r.msg); else if (!rcok) K.viol("file:code", "a call failed under this configuration"); else if (r.lua_live || r.live) K.viol("file:leak", "the configuration is not released: " + r.leaks);
    }
    // two configurations, one after the other
    for (int k = 0; k < 4; k++) {
        std::string key = "configurations in turn " + std::to_string(k);
        if (!K.only.empty()) { K.idx++; if (K.only != key) continue; } else if (!K.mine()) continue;
        K.begin(key); K.interesting(); write(cfg, "function gemm_nb() return 9 end"); write(file("/d.lua"), "function gemm_nb() return 8 end"); std::string why;
        Result r = run(sched(2), [&] {
            double *A = (double *)ualloc(60 * 8, "A"); memset(A, 0, 480);
            for (int h = 0; h < 3; h++) { bool c = (k >> (h & 1)) & 1; set_env("PLASMA_TUNING_FILENAME", c ? cfg.c_str() : h == 2 && k == 1 ? nullptr : file("/d.lua").c_str()); plasma_init(); plasma_set(PlasmaNb, 5); plasma_dgemm(PlasmaNoTrans, PlasmaNoTrans, 1, 2, 3, 1.0, A, 3, A + 20, 3, 0.0, A + 40, 3); int nb; plasma_get(PlasmaNb, &nb); int want = c ? 9 : h == 2 && k == 1 ? 5 : 8; if (nb != want) why = "tile size " + std::to_string(nb) + " in period " + std::to_string(h) + ", expected " + std::to_string(want); plasma_finalize(); }
        });
        set_env("PLASMA_TUNING_FILENAME", nullptr); K.account(r);
        if (r.out != OK) K.viol(std::string("file:") + outcome_name[r.out], r.msg); else if (!why.empty()) K.viol("file:turns", why); else if (r.lua_live || r.live) K.viol("file:leak", r.leaks);
    }
    // 5. the values prescribed are the ones computed with: same task graph and same bits as with the values set
    write(cfg, "for _, e in ipairs({'gbmm','gbtrf','geadd','geinv','gelqf','gemm','geqrf','geswp','getrf','hetrf','lacpy','lag2c','lange','lansy','lantr','lascl','laset','lauum','pbtrf','poinv','potrf','symm','syr2k','syrk','tradd','trmm','trsm','trtri'}) do _G[e .. '_nb'] = function() return tonumber(os.getenv('MCV_NB')) end _G[e .. '_ib'] = function() return tonumber(os.getenv('MCV_IB')) end _G[e .. '_max_panel_threads'] = function() return tonumber(os.getenv('MCV_PT')) end end\n");
    each_case(G_SCHED, {enum_blas, enum_util, enum_norm, enum_chol, enum_lu, enum_qr, enum_aasen, enum_mixed}, [&](Case &cs) {
        std::string nm = plain(cs.key); auto it = sp.find(nm); if (it == sp.end() || !*it->second.entry) return;
        if (!K.tier && routine_of(cs.key)[0] != 'z' && routine_of(cs.key)[0] != 'd') return;
        K.interesting(); Run a; exec(cs, sched(2), a); if (a.r.out != OK || !a.c.bad.empty()) return;   // other checks report this
        setenv("MCV_NB", std::to_string(cs.env.nb).c_str(), 1); setenv("MCV_IB", std::to_string(cs.env.ib).c_str(), 1); setenv("MCV_PT", std::to_string(cs.env.npt).c_str(), 1);
        bool inner = strchr(it->second.sets, 'i') && nm != "gbtrs";
        for (int t = 1; t <= (inner ? 2 : 1); t++) {
            Case c2 = cs; c2.env.tune = t; set_env("PLASMA_TUNING_FILENAME", cfg.c_str()); Run b; exec(c2, sched(2), b); set_env("PLASMA_TUNING_FILENAME", nullptr);
            std::string rt = routine_of(cs.key);
            if (b.r.out != OK) { K.viol(rt + ":" + outcome_name[b.r.out], b.r.msg); return; }
            if (!b.c.bad.empty()) { K.viol(rt + ":tuned", b.c.bad[0].what + " under the configuration"); return; }
            if (b.r.hbhash != a.r.hbhash || b.c.outs != a.c.outs) { K.viol(rt + ":tuned", b.r.hbhash != a.r.hbhash ? "the task graph differs from the one with the prescribed values set" : "the results differ from those with the prescribed values set"); return; }
            K.extra["tuned_runs"]++;
        }
    });
    // 6. with the configuration that is shipped every call still computes the documented result
    each_case(G_FAULT, {enum_blas, enum_util, enum_norm, enum_chol, enum_lu, enum_qr, enum_mixed}, [&](Case &cs) {
        std::string rt = routine_of(cs.key), nm = plain(cs.key); auto it = sp.find(nm); if (it == sp.end() || !*it->second.entry) return;
        if (nm.find("gb") != nm.npos || nm.find("pb") != nm.npos) return;      // the caller's storage depends on the tile size
        K.interesting(); Case c2 = cs; c2.env.tune = 1; set_env("PLASMA_TUNING_FILENAME", shipped().c_str()); Run b; exec(c2, sched(2), b); set_env("PLASMA_TUNING_FILENAME", nullptr);
        if (b.r.out != OK) { K.viol(rt + ":" + outcome_name[b.r.out], b.r.msg); return; }
        if (!b.c.bad.empty()) { K.viol(rt + ":shipped", b.c.bad[0].what + " under the configuration shipped"); return; }
        K.extra["shipped_runs"]++;
    }, "shipped");
    cleanup();
}
