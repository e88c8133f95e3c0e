// C24: the benchmark testbed. The files, commands and clocks it asks are
// replaced by ones the harness controls; every report is parsed and compared
// with what was measured.
#include "vf.hpp"
#include <cmath>
#include <dlfcn.h>
#include <fcntl.h>
#include <sstream>
#include <stdexcept>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <libflatarray/testbed/cpu_benchmark.hpp>
#include <libflatarray/testbed/evaluate.hpp>
#include <cuda.h>
struct cudaDeviceProp { char name[256]; int multiProcessorCount; };
static int gpus = 1, gpu = 0; static char gpu_names[4][256];
inline int cudaGetDevice(int* d) { *d = gpu; return 0; }
inline int cudaGetDeviceProperties(cudaDeviceProp* p, int d) { std::memcpy(p->name, gpu_names[d], 256); return 0; }
#include <libflatarray/testbed/gpu_benchmark.hpp>

static std::string dir, host; static bool have_cpuinfo = true; static long long fake_us = 0; static int clock_reads = 0; static bool fake = false;
extern "C" {
typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* redirected(const char* sym, const char* p, const char* m) {
    static std::string cpuinfo;
    if (!std::strcmp(p, "/proc/cpuinfo") && !dir.empty()) { cpuinfo = dir + (have_cpuinfo ? "/cpuinfo" : "/missing"); p = cpuinfo.c_str(); }
    fopen_t f = (fopen_t)dlsym(RTLD_NEXT, sym); return f(p, m);
}
FILE* fopen(const char* p, const char* m) { return redirected("fopen", p, m); }
FILE* fopen64(const char* p, const char* m) { return redirected("fopen64", p, m); }
int gettimeofday(struct timeval* t, void*) noexcept {
    if (fake) { ++clock_reads; t->tv_sec = fake_us / 1000000; t->tv_usec = fake_us % 1000000; return 0; }
    struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
int clock_gettime(clockid_t c, struct timespec* t) noexcept { // other ways to read the same clock
    if (fake && c == CLOCK_REALTIME) { ++clock_reads; t->tv_sec = fake_us / 1000000; t->tv_nsec = fake_us % 1000000 * 1000; return 0; }
    return int(syscall(SYS_clock_gettime, c, t));
}
time_t time(time_t* t) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int gethostname(char* b, size_t n) noexcept { if (host.size() + 1 > n) { errno = ENAMETOOLONG; return -1; } std::memcpy(b, host.c_str(), host.size() + 1); return 0; }
}
static void put(const std::string& name, const std::string& text) { int fd = open((dir + "/" + name).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755); if (fd < 0 || write(fd, text.data(), text.size()) != ssize_t(text.size())) { std::perror("scratch"); _exit(3); } close(fd); }
static std::string word(vf::Rng& r, int lo, int hi, bool spaces) {
    static const char* c = "abcdefgXYZ0123456789()@.-+_/"; std::string s; int n = int(r.range(lo, hi));
    for (int i = 0; i < n; ++i) s += spaces && i && i + 1 < n && s[s.size() - 1] != ' ' && r.chance(1, 6) ? ' ' : c[r.below(28)];
    return s;
}
static std::string pad(vf::Rng& r) { return std::string(r.chance(1, 2) ? 0 : r.below(4), ' '); }

// ------------------------------------------------------------ CPU names
struct plain_cpu : LibFlatArray::cpu_benchmark {
    std::string family() { return "f"; } std::string species() { return "s"; } std::string unit() { return "u"; }
    double performance(std::vector<int>) { return 0; }
};
struct plain_gpu : LibFlatArray::gpu_benchmark {
    std::string family() { return "f"; } std::string species() { return "s"; } std::string unit() { return "u"; }
    double performance(std::vector<int>) { return 0; }
};
static void gpu_device(vf::Rng& r) {
    std::string n[4]; for (int i = 0; i < 4; ++i) { std::memset(gpu_names[i], 'x', 256); n[i] = word(r, 0, r.chance(1, 4) ? 255 : 30, true); std::memcpy(gpu_names[i], n[i].c_str(), n[i].size() + 1); }
    gpu = int(r.below(4)); vf::step(VF_STR("device " << gpu << " of " << n[0] << ", " << n[1] << ", " << n[2] << ", " << n[3]));
    plain_gpu b; vf::check(b.device() == n[gpu], "gpu:device", "device() is not the name of the current device"); vf::check(b.order() == "GPU", "order", "order() of a GPU benchmark");
    vf::event("device_gpu"); vf::distinct(vf::hash_str(vf::st().step));
}
static std::string likwid(vf::Rng& r, std::string& type, std::string& name) { // "likwid-topology -O": comma separated
    std::string o; type = name = "";
    bool t = r.chance(5, 6), n = r.chance(5, 6), swap = r.chance(1, 3);
    std::vector<std::string> lines;
    if (r.chance(2, 3)) lines.push_back("STRUCT,Info,4" + std::string(r.below(4), ','));
    auto entry = [&](const char* k, std::string& v) {
        v = word(r, 1, 60, true); std::string tail; for (int i = int(r.below(5)); i; --i) tail += ",";
        return std::string(k) + (r.chance(1, 2) ? ":" : "") + pad(r) + "," + pad(r) + v + pad(r) + tail; };
    std::string a, b; if (t) a = entry("CPU type", type); if (n) b = entry("CPU name", name);
    if (swap) std::swap(a, b);
    if (!a.empty()) lines.push_back(a);
    if (r.chance(1, 2)) lines.push_back("CPU stepping:," + word(r, 1, 3, false) + ",,");
    if (r.chance(1, 6)) lines.push_back("");
    if (!b.empty()) lines.push_back(b);
    // a key which nothing follows names nothing
    if (r.chance(1, 6)) { if (type.empty() && r.chance(1, 2)) lines.push_back("CPU type"); else if (name.empty()) lines.push_back("CPU name"); }
    if (r.chance(1, 2)) lines.push_back("TABLE,Topology,64,,");
    for (int i = int(r.below(40)); i; --i) lines.push_back(VF_STR(i << "," << r.below(64) << "," << r.below(8) << ",*"));
    if (r.chance(1, 12)) lines.push_back(std::string(120000, 'x'));
    for (std::size_t i = 0; i < lines.size(); ++i) o += lines[i] + (i + 1 == lines.size() && r.chance(1, 4) ? "" : "\n");
    return o;
}
static std::string cpuinfo(vf::Rng& r, std::string& want) {
    std::string o; want = ""; int style = int(r.below(6));
    int cpus = int(r.below(4));
    for (int c = 0; c <= cpus; ++c) {
        auto line = [&](const std::string& k, const std::string& v) { o += k + ": " + v + "\n"; };
        auto names = [&](const std::string& key) { std::string v = word(r, 1, 60, true); if (want.empty()) want = v; line(key, pad(r) + v + pad(r)); };
        switch (style) {
        case 0: case 1: // x86
            line("processor\t", VF_STR(c)); line("vendor_id\t", "GenuineIntel"); line("cpu family\t", "6"); line("model\t\t", "85"); names("model name\t"); line("cpu cores\t", "4"); line("flags\t\t", word(r, 3000, 5000, true)); break;
        case 2: names("cpu\t\t"); line("clock\t\t", "3425.000000MHz"); break; // POWER
        case 3: names("cpu\t"); break;
        case 4: line("processor\t", VF_STR(c)); line("BogoMIPS\t", "50.00"); line("Features\t", "fp asimd"); line("CPU implementer\t", "0x41"); line("CPU part\t", "0xd0c"); break; // ARM names no model
        default: // anything
            for (int i = int(r.below(6)); i; --i) switch (r.below(9)) {
                case 0: o += "\n"; break; case 1: o += ":\n"; break; case 2: o += word(r, 1, 30, true) + "\n"; break; case 3: line(word(r, 1, 9, false), ""); break;
                case 4: o += " \n"; break; case 5: o += "\t\n"; break; case 6: line(word(r, 1, 9, false), word(r, 4090, 4100, false)); break;
                case 7: if (r.chance(1, 2)) names("model name\t"); break; default: switch (r.below(5)) { case 0: o += "model name\n"; break; case 1: line("model name\t", ""); break; case 2: o += "model name\t:\n"; break; case 3: line("cpu\t\t", ""); break; default: o += "model name\t:    \n"; } break; }
        }
        if (style != 5) o += "\n";
    }
    if (r.chance(1, 5) && !o.empty()) o.resize(o.size() - 1);
    return o;
}
static int open_fds() { int n = 0; for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) != -1; return n; }
static void device(vf::Rng& r) {
    std::string type, name, model; int mode = int(r.below(3)); // likwid says it, likwid is useless, likwid is missing
    unlink((dir + "/likwid-topology").c_str());
    std::string lw;
    if (mode == 0 || r.chance(1, 3)) { lw = likwid(r, type, name); put("likwid.out", lw); put("likwid-topology", VF_STR("#!/bin/sh\n/bin/cat '" << dir << "/likwid.out'\n" << (r.chance(1, 5) ? "exit 1\n" : ""))); }
    else if (r.chance(9, 10)) put("likwid-topology", "#!/bin/sh\nexit 127\n");
    std::string ci = cpuinfo(r, model); have_cpuinfo = r.chance(7, 8); put("cpuinfo", ci); if (!have_cpuinfo) model = "";
    bool by_likwid = !type.empty() && !name.empty();
    std::string want = by_likwid ? type + ", " + name : !model.empty() ? model : "unknown CPU";
    vf::step(VF_STR("likwid " << lw.substr(0, 150) << " cpuinfo " << (have_cpuinfo ? ci.substr(0, 150) : std::string("missing"))));
    plain_cpu b; int before = open_fds();
    for (int i = r.chance(1, 4) ? 3 : 1; i; --i) {
        std::string got;
        try { got = b.device(); } catch (...) { vf::violation("device:throws", "device() let an exception escape"); return; }
        vf::check_lazy(got == want, by_likwid ? "device:likwid" : !model.empty() ? "device:cpuinfo" : "device:unknown", [&] { return VF_STR("device() is <" << got.substr(0, 200) << "> (" << got.size() << " characters) instead of <" << want << ">"); });
        vf::check(b.order() == "CPU", "order", "order() of a CPU benchmark");
        vf::event(by_likwid ? "device_likwid" : !model.empty() ? "device_cpuinfo" : "device_unknown");
    }
    vf::check(open_fds() == before, "device:descriptors", "device() leaves file descriptors open");
    int st; pid_t z = waitpid(-1, &st, WNOHANG); vf::check(z <= 0, "device:process", "device() leaves a child process behind");
    vf::distinct(vf::hash_str(lw + "|" + (have_cpuinfo ? ci : "-")));
    if (vf::st().case_index < 2) vf::sample(want);
}

// -------------------------------------------------------------- reports
struct log_t { int runs = 0, devices = 0; std::vector<int> dim; long long at = 0; };
struct probe : LibFlatArray::benchmark {
    std::string o, f, s, u, d; double perf; long long takes; bool throws; log_t* log;
    std::string order() { return o; } std::string family() { return f; } std::string species() { return s; } std::string unit() { return u; }
    std::string device() { ++log->devices; return d; }
    double performance(std::vector<int> dim) {
        ++log->runs; log->dim = dim; double a = time(); vf::check(std::fabs(a - fake_us * 1e-6) < 1e-5, "time", "benchmark::time() is not the time of day in seconds");
        fake_us += takes; double b = time(); vf::check(std::fabs(b - a - takes * 1e-6) < 1e-5, "time", "two readings of benchmark::time() do not differ by what went by");
        if (throws) throw std::logic_error("consistency check failed"); return perf; }
};
struct capture { std::ostringstream s; std::streambuf* old; capture() : old(std::cout.rdbuf(s.rdbuf())) {} ~capture() { std::cout.rdbuf(old); } std::string text() const { return s.str(); } };
static std::string trim(const std::string& s) { std::size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::vector<std::string> fields(const std::string& line) { std::vector<std::string> v; std::string cur; for (char c : line) if (c == ';') { v.push_back(trim(cur)); cur.clear(); } else cur += c; v.push_back(trim(cur)); return v; }
static void report(vf::Rng& r) {
    fake = true; host = r.chance(1, 8) ? word(r, 64, 255, false) : word(r, 1, 30, false);
    std::string rev = word(r, 1, r.chance(1, 6) ? 41 : 12, false);
    std::vector<std::string> fam; for (int i = 0; i < 4; ++i) fam.push_back(word(r, 1, r.chance(1, 6) ? 50 : 14, true));
    std::string ask = r.chance(1, 5) ? "" : r.chance(1, 8) ? word(r, 1, 20, false) : fam[r.below(4)];
    if (ask.size() > 2 && r.chance(1, 2)) { std::size_t a = r.below(ask.size() - 1); ask = ask.substr(a, 1 + r.below(ask.size() - a)); }
    std::vector<std::string> columns; 
    { capture c; LibFlatArray::evaluate e(ask, rev); e.print_header(); std::string t = c.text(); vf::check(t.size() > 1 && t[t.size() - 1] == '\n' && t.find('\n') == t.size() - 1, "header:line", "the header is not one line"); columns = fields(t.substr(0, t.size() - 1)); }
    vf::check(columns.size() == 10, "header:columns", "the header does not have ten columns"); if (columns.size() != 10) return;
    LibFlatArray::evaluate e(ask, rev);
    for (int n = 0; n < 5; ++n) {
        log_t log; probe p; p.f = fam[r.below(4)]; p.o = word(r, 1, 12, false); p.s = word(r, 1, 12, false); p.u = word(r, 1, 9, false); p.d = word(r, 1, r.chance(1, 5) ? 90 : 40, true); p.log = &log;
        p.perf = r.chance(1, 10) ? 0 : r.chance(1, 10) ? -1.5 : std::ldexp(double(1 + r.below(1000000)), int(r.range(-40, 40))); p.takes = (long long)r.below(r.chance(1, 2) ? 3000000 : 1000); p.throws = r.chance(1, 10);
        fake_us = (long long)r.below(4000000000u) * 1000000 + (long long)r.below(1000000); long long began = fake_us;
        std::vector<int> dim; for (int k = int(r.below(6)); k; --k) dim.push_back(r.chance(1, 4) ? int(r.next()) : int(r.below(2000)));
        bool output = r.chance(3, 4), runs = p.f.find(ask) != std::string::npos, threw = false;
        vf::step(VF_STR("name <" << ask << "> family <" << p.f << "> dims " << dim.size() << " output " << output << " throws " << p.throws));
        std::string text;
        { capture c; try { if (output && r.chance(1, 2)) e(p, dim); else e(p, dim, output); } catch (const std::logic_error&) { threw = true; } text = c.text(); }
        vf::check(threw == (runs && p.throws), "run:exception", "a failed measurement must be reported to the caller, and nothing else");
        vf::check(log.runs == int(runs), runs ? "run:once" : "run:filter", runs ? "the selected benchmark was not run exactly once" : "a benchmark whose family lacks the name was run");
        if (runs) vf::check(log.dim == dim, "run:dim", "the benchmark was given other dimensions");
        bool row = runs && output && !threw;
        if (!row) { vf::check(text.empty(), "row:unwanted", "output without a finished and requested measurement"); vf::event(!runs ? "filtered" : threw ? "failed" : "silent"); continue; }
        vf::check(!text.empty() && text[text.size() - 1] == '\n' && text.find('\n') == text.size() - 1, "row:line", "a measurement is not one line"); if (text.empty()) continue;
        std::vector<std::string> got = fields(text.substr(0, text.size() - 1));
        vf::check(got.size() == columns.size(), "row:columns", VF_STR(got.size() << " fields under " << columns.size() << " columns")); if (got.size() != columns.size()) continue;
        std::ostringstream d; d << "("; for (std::size_t k = 0; k < dim.size(); ++k) d << (k ? ", " : "") << dim[k]; d << ")";
        for (std::size_t k = 0; k < columns.size(); ++k) {
            const std::string& c = columns[k]; std::string w; bool ok;
            if (c == "#rev") w = rev; else if (c == "host") w = host; else if (c == "device") w = p.d; else if (c == "order") w = p.o; else if (c == "family") w = p.f; else if (c == "species") w = p.s; else if (c == "dimensions") w = d.str(); else if (c == "unit") w = p.u;
            else if (c == "perf") { w = VF_STR(p.perf); double v = std::strtod(got[k].c_str(), 0); ok = std::fabs(v - p.perf) <= 1e-5 * std::fabs(p.perf); vf::check(ok, "row:perf", VF_STR("perf is <" << got[k] << "> instead of " << p.perf)); continue; }
            else if (c == "date") { // the time of the measurement, UTC
                ok = false; for (long long t : {began / 1000000, fake_us / 1000000}) { time_t tt = time_t(t); struct tm m; gmtime_r(&tt, &m); char b[64]; strftime(b, sizeof b, "%Y-%b-%d %H:%M:%S", &m); w = b; ok = ok || got[k] == w; }
                vf::check_lazy(ok, "row:date", [&] { return VF_STR("date is <" << got[k] << "> instead of <" << w << ">"); }); continue; }
            else { vf::violation("header:unknown", "unknown column " + c); continue; }
            vf::check_lazy(got[k] == w, "row:" + c, [&] { return VF_STR(c << " is <" << got[k] << "> instead of <" << w << ">"); });
        }
        vf::event("rows"); vf::event("fields", columns.size()); vf::distinct(vf::hash_str(text)); if (vf::st().case_index < 1) vf::sample(text.substr(0, 160));
    }
    fake = false;
}
VF_MAIN({
    char t[] = "/tmp/vf_c24_XXXXXX"; if (!mkdtemp(t)) return 3; dir = t; setenv("PATH", (dir + ":/usr/bin:/bin").c_str(), 1); setenv("TZ", "VFT-5:30", 1); setenv("LC_ALL", "C", 1); host = "h";
    vf::scenario("report", vf::scaled(2000), report);
    vf::scenario("gpu", vf::scaled(300), gpu_device);
    vf::scenario("device", vf::scaled(600), device);
    for (const char* f : {"/likwid-topology", "/likwid.out", "/cpuinfo"}) unlink((dir + f).c_str()); rmdir(dir.c_str());
})
