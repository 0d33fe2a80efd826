#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <set>
#include <map>
#include <unordered_set>
#include <algorithm>

namespace pbt {
std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }
void (*child_setup)() = nullptr;
Ctx *cur = nullptr;
}
using namespace pbt;

extern "C" {
// edge coverage of the library under test (compiled with trace-pc-guard)
static uint8_t *g_cov = nullptr;
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++n;
}
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    if (g_cov) g_cov[*guard & ((1 << 14) - 1)] = 1;
}
}

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Slot *new_slot() {
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Slot *)p;
}

static void reset_case(Slot *s) {
    s->state = 0; s->nchoices = 0; s->fp = 0; s->nontrivial = 0;
    s->msg[0] = 0; s->sample[0] = 0; s->nlabels = 0;
}

struct Opts {
    std::string prop, out, replay, scratch = "/tmp";
    uint64_t seed = 1;
    double secs = 20;
    int workers = 8;
    bool thorough = false, san = false;
    double shrink_secs = 40;
    uint64_t minc = 0;           // at least this many cases over all workers (bounded by 4x time)
};
static Opts O;

// runs one case inside the child; returns state
static int run_case(const Prop &p, Slot *s, uint64_t seed, const std::vector<uint64_t> *replay,
                    const std::vector<uint64_t> *prefix) {
    reset_case(s);
    Ctx t;
    t.slot = s; t.rng = seed; t.replay = replay; t.prefix = prefix;
    t.thorough = O.thorough; t.san = O.san;
    cur = &t;
    int st = 1;
    try {
        p.fn(t);
    } catch (Fail &) {
        st = 2;
    } catch (Discard &) {
        st = 3;
    }
    cur = nullptr;
    s->state = st;
    return st;
}

static std::string slurp(const std::string &f, size_t max) {
    FILE *fp = fopen(f.c_str(), "r");
    if (!fp) return "";
    std::string r(max, 0);
    size_t n = fread(&r[0], 1, max, fp);
    fclose(fp);
    r.resize(n);
    return r;
}

static void child_prep(const std::string &errfile, int timeout) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    signal(SIGALRM, SIG_DFL);
    alarm(timeout);
    if (child_setup) child_setup();
}

enum Verdict { V_OK, V_FAIL, V_CRASH, V_HANG, V_DISCARD };

static Verdict classify(int status, Slot *s, const std::string &errfile) {
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
        snprintf(s->msg, sizeof(s->msg), "HANG: case did not finish in time");
        return V_HANG;
    }
    if (WIFSIGNALED(status) || (WIFEXITED(status) && WEXITSTATUS(status) != 0)) {
        if (s->state == 2) return V_FAIL;
        std::string e = slurp(errfile, 6000);
        snprintf(s->msg, sizeof(s->msg), "CRASH: %s %d\n%s",
                 WIFSIGNALED(status) ? "signal" : "exit status",
                 WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), e.c_str());
        return V_CRASH;
    }
    if (s->state == 2) return V_FAIL;
    if (s->state == 3) return V_DISCARD;
    if (s->state == 0) {
        snprintf(s->msg, sizeof(s->msg), "CRASH: process ended inside the case");
        return V_CRASH;
    }
    return V_OK;
}

static Verdict run_replay(const Prop &p, Slot *s, const std::vector<uint64_t> &ch, const std::string &errfile,
                          int timeout) {
    pid_t pid = fork();
    if (pid == 0) {
        child_prep(errfile, timeout);
        g_cov = s->cov;
        run_case(p, s, 1, &ch, nullptr);
        _exit(0);
    }
    if (pid < 0) return V_OK;
    int status;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
    return classify(status, s, errfile);
}

struct Stats {
    uint64_t cases = 0, nontriv = 0, discard = 0, hangs = 0, cov_edges = 0, corpus = 0;
    std::unordered_set<uint64_t> fps;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> labels;
};

struct Found {
    std::vector<uint64_t> choices;
    std::string msg;
    int prop = -1;
};

static void jstr(FILE *f, const std::string &s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void worker(int w, const std::vector<Prop> &props, volatile int *stop, const std::string &dir) {
    Slot *s = new_slot();
    std::string errfile = dir + "/err." + std::to_string(w);
    double t0 = now(), tend = t0 + O.secs;
    std::vector<Stats> st(props.size());
    int wsum = 0;
    for (auto &p : props) wsum += p.weight;
    std::vector<double> used(props.size(), 0);
    std::vector<uint64_t> idx(props.size(), 0);
    std::vector<std::vector<std::vector<uint64_t>>> corpus(props.size());
    std::vector<std::vector<uint8_t>> seen(props.size(), std::vector<uint8_t>(sizeof(s->cov), 0));
    Found found;
    uint64_t total = 0;
    while (!*stop) {
        double tn = now();
        if (tn >= tend && (total >= O.minc / O.workers || tn >= t0 + 4 * O.secs)) break;
        // pick the most underserved property
        size_t k = 0;
        double best = 1e99;
        for (size_t i = 0; i < props.size(); i++) {
            double v = used[i] / props[i].weight;
            if (v < best) { best = v; k = i; }
        }
        const Prop &p = props[k];
        double c0 = now();
        uint64_t caseseed = mix(mix(O.seed, w * 1000003ULL + k * 7919ULL + strlen(p.name)), idx[k]);
        uint64_t prng = mix(caseseed, 77);
        memset((void *)s->cov, 0, sizeof(s->cov));
        s->b_cases = s->b_nontrivial = s->b_discard = 0; s->b_nfps = 0; s->b_index = 0;
        reset_case(s);
        const std::vector<uint64_t> *prefix = nullptr;
        if (p.batch == 1 && !corpus[k].empty() && (splitmix(prng) % 100) < 35)
            prefix = &corpus[k][splitmix(prng) % corpus[k].size()];
        pid_t pid = fork();
        if (pid == 0) {
            child_prep(errfile, p.timeout_s);
            g_cov = s->cov;
            if (p.batch == 1) {
                run_case(p, s, caseseed, nullptr, prefix);
            } else {
                double b0 = now();
                for (int b = 0; b < p.batch; b++) {
                    s->b_index = b;
                    int r = run_case(p, s, mix(caseseed, b + 1), nullptr, nullptr);
                    if (r == 2) break;
                    s->b_cases++;
                    if (r == 3) s->b_discard++;
                    else if (s->nontrivial) {
                        s->b_nontrivial++;
                        if (s->b_nfps < 4096) s->b_fps[s->b_nfps++] = s->fp;
                    }
                    if (now() - b0 > p.timeout_s / 4.0) break;
                }
            }
            _exit(0);
        }
        if (pid < 0) { usleep(10000); continue; }
        int status;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
        idx[k]++;
        Verdict v = classify(status, s, errfile);
        Stats &S = st[k];
        if (p.batch > 1) {
            S.cases += s->b_cases; S.nontriv += s->b_nontrivial; S.discard += s->b_discard;
            for (uint32_t i = 0; i < s->b_nfps; i++) S.fps.insert(s->b_fps[i]);
        } else {
            S.cases++;
            if (v == V_DISCARD) S.discard++;
            else if (s->nontrivial) { S.nontriv++; S.fps.insert((uint64_t)s->fp); }
        }
        total += p.batch > 1 ? s->b_cases : 1;
        for (int i = 0; i < s->nlabels; i++) S.labels[s->labels[i]]++;
        if (v == V_OK && s->nontrivial && S.samples.size() < 3 && s->sample[0]) S.samples.push_back(s->sample);
        bool fresh = false;
        for (size_t i = 0; i < sizeof(s->cov); i++)
            if (s->cov[i] && !seen[k][i]) { seen[k][i] = 1; S.cov_edges++; fresh = true; }
        if (fresh && p.batch == 1 && v == V_OK && s->nchoices && s->nchoices < MAX_CHOICES) {
            corpus[k].emplace_back(s->choices, s->choices + s->nchoices);
            S.corpus = corpus[k].size();
        }
        used[k] += now() - c0;
        if (v == V_FAIL || v == V_CRASH || v == V_HANG) {
            std::vector<uint64_t> ch(s->choices, s->choices + s->nchoices);
            std::string msg = s->msg;
            // must reproduce on its own, three times
            int ok = v == V_HANG ? 1 : 0;
            for (int r = ok; r < 3; r++) {
                Verdict rv = run_replay(p, s, ch, errfile, p.timeout_s * 2 + 30);
                if (rv == V_FAIL || rv == V_CRASH || rv == V_HANG) ok++;
            }
            for (int r = 0; p.racy && !ok && r < 12; r++) {
                Verdict rv = run_replay(p, s, ch, errfile, p.timeout_s * 2 + 30);
                if (rv == V_FAIL || rv == V_CRASH) ok = 3;
            }
            if (p.racy && ok) ok = 3;
            if (ok == 3) {
                found.choices = ch; found.msg = s->msg[0] ? s->msg : msg.c_str(); found.prop = (int)k;
                *stop = 1;
                break;
            }
            S.hangs++;
            S.labels[std::string("unreproduced:") + msg.substr(0, 60)]++;
            fprintf(stderr, "unreproduced failure of %s/%s: %s\n", p.id, p.name, msg.c_str());
        }
    }
    std::string of = dir + "/w." + std::to_string(w);
    FILE *f = fopen(of.c_str(), "w");
    for (size_t k = 0; k < props.size(); k++) {
        Stats &S = st[k];
        fprintf(f, "P %zu %llu %llu %llu %llu %llu %llu\n", k, (unsigned long long)S.cases,
                (unsigned long long)S.nontriv, (unsigned long long)S.discard, (unsigned long long)S.hangs,
                (unsigned long long)S.cov_edges, (unsigned long long)S.corpus);
        for (auto x : S.fps) fprintf(f, "F %llx\n", (unsigned long long)x);
        for (auto &l : S.labels) fprintf(f, "L %llu %s\n", (unsigned long long)l.second,
                                         std::string(l.first.substr(0, l.first.find('\n'))).c_str());
        for (auto s2 : S.samples) {
            std::replace(s2.begin(), s2.end(), '\n', ' ');
            fprintf(f, "S %s\n", s2.c_str());
        }
    }
    if (found.prop >= 0) {
        fprintf(f, "X %d %zu", found.prop, found.choices.size());
        for (auto c : found.choices) fprintf(f, " %llu", (unsigned long long)c);
        fprintf(f, "\n");
        std::string m = found.msg;
        std::replace(m.begin(), m.end(), '\n', '\x01');
        fprintf(f, "M %s\n", m.c_str());
    }
    fprintf(f, "E\n");
    fclose(f);
    fflush(stderr);
    _exit(0);
}

static bool fails(const Prop &p, Slot *s, const std::vector<uint64_t> &c, const std::string &err, int timeout) {
    for (int r = 0; r < (p.racy ? 3 : 1); r++) {
        Verdict v = run_replay(p, s, c, err, timeout);
        if (v == V_FAIL || v == V_CRASH || v == V_HANG) return true;
    }
    return false;
}

static void shrink(const Prop &p, std::vector<uint64_t> &best, std::string &msg, const std::string &dir) {
    double tend = now() + O.shrink_secs;
    Slot *s = new_slot();
    std::string err = dir + "/err.shrink";
    bool hang = msg.compare(0, 5, "HANG:") == 0;
    int to = hang ? p.timeout_s : p.timeout_s * 2;
    if (hang) tend = now() + std::min(O.shrink_secs, 60.0);
    auto attempt = [&](const std::vector<uint64_t> &c) -> bool {
        if (now() > tend) return false;
        if (!fails(p, s, c, err, to)) return false;
        // keep what the run really consumed
        std::vector<uint64_t> used(s->choices, s->choices + s->nchoices);
        if (used.size() > c.size()) used.resize(c.size());
        while (!used.empty() && used.back() == 0) used.pop_back();
        best = used.size() <= c.size() ? used : c;
        msg = s->msg;
        return true;
    };
    bool progress = true;
    while (progress && now() < tend) {
        progress = false;
        for (size_t sz = std::max<size_t>(best.size() / 2, 1); sz >= 1 && now() < tend; sz /= 2) {
            for (size_t i = 0; i + sz <= best.size() && now() < tend;) {
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + i, c.begin() + i + sz);
                if (attempt(c)) { progress = true; continue; }
                i += sz;
            }
            if (sz == 1) break;
        }
        for (size_t sz = std::max<size_t>(best.size() / 2, 1); sz >= 1 && now() < tend; sz /= 2) {
            for (size_t i = 0; i + sz <= best.size() && now() < tend; i += sz) {
                bool nz = false;
                for (size_t j = i; j < i + sz; j++) nz |= best[j] != 0;
                if (!nz) continue;
                std::vector<uint64_t> c = best;
                std::fill(c.begin() + i, c.begin() + i + sz, 0);
                if (attempt(c)) progress = true;
            }
            if (sz == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < tend; i++) {
            uint64_t lo = 0;
            for (int it = 0; it < 20 && i < best.size() && best[i] > lo && now() < tend; it++) {
                uint64_t m = lo + (best[i] - lo) / 2;
                std::vector<uint64_t> c = best;
                c[i] = m;
                if (attempt(c)) progress = true;
                else lo = m + 1;
            }
        }
    }
}

int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") O.prop = nx();
        else if (a == "--seed") O.seed = strtoull(nx().c_str(), 0, 0);
        else if (a == "--time") O.secs = atof(nx().c_str());
        else if (a == "--workers") O.workers = atoi(nx().c_str());
        else if (a == "--out") O.out = nx();
        else if (a == "--replay") O.replay = nx();
        else if (a == "--scratch") O.scratch = nx();
        else if (a == "--thorough") O.thorough = true;
        else if (a == "--san") O.san = true;
        else if (a == "--min") O.minc = strtoull(nx().c_str(), 0, 0);
        else if (a == "--shrink") O.shrink_secs = atof(nx().c_str());
    }
    std::string only;
    size_t sl = O.prop.find('/');
    if (sl != std::string::npos) { only = O.prop.substr(sl + 1); O.prop = O.prop.substr(0, sl); }
    if (!O.replay.empty()) {
        FILE *f = fopen(O.replay.c_str(), "r");
        if (!f) { perror(O.replay.c_str()); return 2; }
        char id[16], name[64], line[256];
        std::vector<uint64_t> ch;
        id[0] = name[0] = 0;
        while (fgets(line, sizeof(line), f)) {
            unsigned long long v;
            if (sscanf(line, "prop %15[^/]/%63s", id, name) == 2) continue;
            if (sscanf(line, "c %llu", &v) == 1) ch.push_back(v);
        }
        fclose(f);
        for (auto &p : registry())
            if (!strcmp(p.id, id) && !strcmp(p.name, name)) {
                Slot *s = new_slot();
                std::string err = O.scratch + "/replay.err";
                Verdict v = run_replay(p, s, ch, err, p.timeout_s * 3 + 20);
                printf("%s/%s: %s\n%s\nsample: %s\n", id, name,
                       v == V_OK ? "held" : v == V_DISCARD ? "discarded" : "FAILED",
                       v == V_OK ? "" : s->msg, s->sample);
                return (v == V_OK || v == V_DISCARD) ? 0 : 1;
            }
        fprintf(stderr, "unknown property %s/%s\n", id, name);
        return 2;
    }
    std::vector<Prop> props;
    for (auto &p : registry())
        if (O.prop == p.id && (only.empty() || only == p.name)) props.push_back(p);
    if (props.empty()) { fprintf(stderr, "no such property\n"); return 2; }
    char tmpl[512];
    snprintf(tmpl, sizeof(tmpl), "%s/pbt.XXXXXX", O.scratch.c_str());
    std::string dir = mkdtemp(tmpl);
    volatile int *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    fflush(stderr);
    double t0 = now();
    std::vector<pid_t> pids;
    for (int w = 0; w < O.workers; w++) {
        pid_t pid = fork();
        if (pid == 0) worker(w, props, stop, dir);
        pids.push_back(pid);
    }
    for (auto p : pids) waitpid(p, nullptr, 0);
    // merge
    std::vector<Stats> st(props.size());
    Found found;
    for (int w = 0; w < O.workers; w++) {
        std::string of = dir + "/w." + std::to_string(w);
        FILE *f = fopen(of.c_str(), "r");
        if (!f) continue;
        char *line = nullptr;
        size_t cap = 0;
        size_t k = 0;
        bool mine = false;
        while (getline(&line, &cap, f) > 0) {
            size_t l = strlen(line);
            if (l && line[l - 1] == '\n') line[l - 1] = 0;
            if (line[0] == 'P') {
                unsigned long long a, b, c, d, e, g;
                sscanf(line, "P %zu %llu %llu %llu %llu %llu %llu", &k, &a, &b, &c, &d, &e, &g);
                st[k].cases += a; st[k].nontriv += b; st[k].discard += c; st[k].hangs += d;
                st[k].cov_edges = std::max<uint64_t>(st[k].cov_edges, e); st[k].corpus += g;
            } else if (line[0] == 'F') st[k].fps.insert(strtoull(line + 2, 0, 16));
            else if (line[0] == 'L') {
                char *e;
                uint64_t n = strtoull(line + 2, &e, 10);
                st[k].labels[e + 1] += n;
            } else if (line[0] == 'S') { if (st[k].samples.size() < 4) st[k].samples.push_back(line + 2); }
            else if (line[0] == 'X' && found.prop < 0) {
                mine = true;
                char *e;
                found.prop = (int)strtol(line + 2, &e, 10);
                size_t n = strtoull(e, &e, 10);
                for (size_t i = 0; i < n; i++) found.choices.push_back(strtoull(e, &e, 10));
            } else if (line[0] == 'M' && mine) {
                found.msg = line + 2;
                std::replace(found.msg.begin(), found.msg.end(), '\x01', '\n');
                mine = false;
            }
        }
        free(line);
        fclose(f);
    }
    double wall = now() - t0;
    if (found.prop >= 0) {
        const Prop &p = props[found.prop];
        shrink(p, found.choices, found.msg, dir);
    }
    FILE *f = O.out.empty() ? stdout : fopen(O.out.c_str(), "w");
    uint64_t c = 0, n = 0, d = 0;
    fprintf(f, "{\"wall_s\": %.2f, \"subs\": [", wall);
    for (size_t k = 0; k < props.size(); k++) {
        Stats &S = st[k];
        c += S.cases; n += S.nontriv; d += S.fps.size();
        fprintf(f, "%s{\"name\": \"%s\", \"rule\": ", k ? ", " : "", props[k].name);
        jstr(f, props[k].rule);
        fprintf(f, ", \"cases\": %llu, \"nontrivial\": %llu, \"distinct\": %zu, \"discarded\": %llu, \"unreproduced\": %llu, \"edges\": %llu, \"corpus\": %llu, \"labels\": {",
                (unsigned long long)S.cases, (unsigned long long)S.nontriv, S.fps.size(),
                (unsigned long long)S.discard, (unsigned long long)S.hangs, (unsigned long long)S.cov_edges,
                (unsigned long long)S.corpus);
        bool first = true;
        for (auto &l : S.labels) {
            if (!first) fputs(", ", f);
            first = false;
            jstr(f, l.first);
            fprintf(f, ": %llu", (unsigned long long)l.second);
        }
        fprintf(f, "}, \"samples\": [");
        for (size_t i = 0; i < S.samples.size(); i++) {
            if (i) fputs(", ", f);
            jstr(f, S.samples[i]);
        }
        fprintf(f, "]}");
    }
    fprintf(f, "], \"cases\": %llu, \"nontrivial\": %llu, \"distinct\": %llu, \"found\": ",
            (unsigned long long)c, (unsigned long long)n, (unsigned long long)d);
    if (found.prop < 0) fprintf(f, "null}\n");
    else {
        fprintf(f, "{\"sub\": \"%s\", \"msg\": ", props[found.prop].name);
        jstr(f, found.msg);
        fprintf(f, ", \"choices\": [");
        for (size_t i = 0; i < found.choices.size(); i++)
            fprintf(f, "%s%llu", i ? ", " : "", (unsigned long long)found.choices[i]);
        fprintf(f, "]}}\n");
    }
    if (f != stdout) fclose(f);
    for (int w = 0; w < O.workers; w++) {
        unlink((dir + "/w." + std::to_string(w)).c_str());
        unlink((dir + "/err." + std::to_string(w)).c_str());
    }
    unlink((dir + "/err.shrink").c_str());
    rmdir(dir.c_str());
    return found.prop >= 0 ? 1 : 0;
}
