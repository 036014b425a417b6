// Driver of the random tier: forked workers, crash isolation, shrinking, replay files.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>

#include "pbt.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN
#endif
#elif defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN
#endif
#ifdef PBT_ASAN
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=0:"
           "detect_stack_use_after_return=1:quarantine_size_mb=32:handle_abort=1:"
           "max_allocation_size_mb=2048:hard_rss_limit_mb=3500:"
           "malloc_context_size=4";
}
#endif
extern "C" const char *__ubsan_default_options() {
    return "print_stacktrace=0:symbolize=0:exitcode=98";
}

namespace pbt {

void reset_sticky();

constexpr int MAX_LABELS = 256;
constexpr int MAX_SAMPLES = 6;
constexpr int SAMPLE_LEN = 1800;
struct Shared {
    CaseRecord rec;
    // statistics
    volatile uint64_t evaluated, discarded, nontrivial;
    char label_names[MAX_LABELS][64];
    volatile uint64_t label_counts[MAX_LABELS];
    volatile int n_labels;
    volatile int n_samples;
    char samples[MAX_SAMPLES][SAMPLE_LEN];
    volatile uint64_t n_hashes;
    uint64_t hashes[1];  // flexible
};

static Shared *g_shared = nullptr;
static bool g_thorough = false;
bool thorough() {
    return g_thorough;
}

CaseRecord *current_record() {
    return g_shared ? &g_shared->rec : nullptr;
}
int label_index(const char *name) {
    Shared *s = g_shared;
    for (int i = 0; i < s->n_labels; ++i)
        if (strncmp(s->label_names[i], name, 63) == 0)
            return i;
    if (s->n_labels >= MAX_LABELS)
        return MAX_LABELS - 1;
    int i = s->n_labels;
    strncpy(s->label_names[i], name, 63);
    s->n_labels = i + 1;
    return i;
}

static Shared *make_shared_region(uint64_t hashes) {
    std::size_t len = sizeof(Shared) + hashes * sizeof(uint64_t);
    void *p = mmap(nullptr, len, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return static_cast<Shared *>(p);
}

static int g_cpu_limit = 20;
static void on_cpu(int) {
    static const char m[] = "case exceeded its CPU limit (hang)";
    if (g_shared && g_shared->rec.msg[0] == 0)
        memcpy(g_shared->rec.msg, m, sizeof m);
    _exit(78);
}
static void on_term() {
    if (g_shared && g_shared->rec.msg[0] == 0) {
        const char *what = "std::terminate called";
        strcpy(g_shared->rec.msg, what);
        if (auto p = std::current_exception()) {
            try {
                std::rethrow_exception(p);
            } catch (const Fail &f) {
                snprintf(g_shared->rec.msg, 2000, "(through noexcept) %s", f.msg.c_str());
            } catch (const std::exception &e) {
                snprintf(g_shared->rec.msg, 2000, "std::terminate called: %s", e.what());
            } catch (...) {
            }
        }
    }
    _exit(76);
}
static void arm() {
    struct itimerval tv = {};
    tv.it_value.tv_sec = g_cpu_limit;
    setitimer(ITIMER_PROF, &tv, nullptr);
}
static void disarm() {
    struct itimerval tv = {};
    setitimer(ITIMER_PROF, &tv, nullptr);
}

/// Runs one case; true if the property held
static bool run_one(Src &src) {
    reset_sticky();
    Shared *s = g_shared;
    s->rec.running = 1;
    std::string msg;
    bool ok = true;
    try {
        harness::run(src);
        check_sticky();
    } catch (const Discard &) {
        s->discarded = s->discarded + 1;
        if (has_sticky()) {
            ok = false;
            msg = s->rec.msg;
        }
    } catch (const Fail &f) {
        ok = false;
        msg = f.msg;
    } catch (const std::exception &e) {
        ok = false;
        msg = std::string("unexpected exception: ") + typeid(e).name() + ": " + e.what();
    } catch (...) {
        ok = false;
        msg = "unexpected exception of unknown type";
    }
    if (!ok && s->rec.msg[0] == 0)
        snprintf(s->rec.msg, sizeof s->rec.msg, "%s", msg.c_str());
    s->rec.running = 0;
    return ok;
}

static uint64_t case_seed(uint64_t seed, uint64_t index) {
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    x ^= (index + 1) * 0xd1342543de82ef95ull;
    x ^= x >> 31;
    return x;
}

static void child_setup(const char *errfile) {
    std::set_terminate(on_term);
    struct sigaction sa = {};
    sa.sa_handler = on_cpu;
    sigaction(SIGPROF, &sa, nullptr);
    if (errfile) {
        int fd = open(errfile, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) {
            dup2(fd, 2);
            close(fd);
        }
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

/// Body of a worker: cases `first`, `first+step`, ... of the batch
static void worker(uint64_t seed, uint64_t first, uint64_t last, bool sample) {
    Shared *s = g_shared;
    for (uint64_t i = first; i < last; ++i) {
        s->rec.case_index = i;
        bool want_trace = sample && s->n_samples < MAX_SAMPLES;
        Src src(&s->rec, case_seed(seed, i), want_trace);
        arm();
        bool ok = run_one(src);
        if (!ok)
            _exit(77);
        s->evaluated = s->evaluated + 1;
        for (int l : src.labels())
            s->label_counts[l] = s->label_counts[l] + 1;
        if (src.is_nontrivial()) {
            s->nontrivial = s->nontrivial + 1;
            s->hashes[s->n_hashes] = src.hash();
            s->n_hashes = s->n_hashes + 1;
            if (want_trace && !src.trace_text().empty()) {
                snprintf(s->samples[s->n_samples], SAMPLE_LEN, "case %llu: %s",
                         (unsigned long long)i, src.trace_text().c_str());
                s->n_samples = s->n_samples + 1;
            }
        }
    }
    disarm();
    _exit(0);
}

struct Outcome {
    bool failed;
    std::string msg;
    std::vector<uint64_t> draws;  // as recorded
};

static std::string status_text(int st) {
    char b[100];
    if (WIFSIGNALED(st))
        snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st));
    else
        snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
    return b;
}
static std::string slurp(const std::string &f, std::size_t max = 1500) {
    std::ifstream in(f);
    std::string t((std::istreambuf_iterator<char>(in)), {});
    if (t.size() > max)
        t.resize(max);
    return t;
}

static std::string g_tmp, g_tag;

static Outcome collect(int st, const std::string &errfile) {
    Outcome o;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    CaseRecord &r = g_shared->rec;
    if (o.failed) {
        o.msg = r.msg;
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
        if (code != 76 && code != 77 && code != 78) {
            std::string e = slurp(errfile);
            std::string t = o.msg.empty() ? std::string() : " [after: " + o.msg + "]";
            o.msg = "crash (" + status_text(st) + "): " + e + t;
        }
    }
    o.draws.assign(r.draws, r.draws + r.n_draws);
    return o;
}

static Outcome run_replay(const std::vector<uint64_t> &draws, bool trace = false,
                          bool keep_stderr = false) {
    std::string err = g_tmp + "/replay.err";
    g_shared->rec.msg[0] = 0;
    g_shared->rec.n_draws = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        child_setup(keep_stderr ? nullptr : err.c_str());
        Src src(&g_shared->rec, draws, trace);
        arm();
        bool ok = run_one(src);
        disarm();
        if (trace && !src.trace_text().empty()) {
            printf("TRACE: %s\n", src.trace_text().c_str());
            fflush(stdout);
        }
        _exit(ok ? 0 : 77);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    return collect(st, err);
}

static Outcome run_batch(uint64_t seed, uint64_t first, uint64_t last) {
    std::string err = g_tmp + "/replay.err";
    g_shared->rec.msg[0] = 0;
    g_shared->rec.n_draws = 0;
    g_shared->n_hashes = 0;
    pid_t p = fork();
    if (p == 0) {
        child_setup(err.c_str());
        worker(seed, first, last, false);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    return collect(st, err);
}

/// Shrink: delete chunks, zero, and decrease draws while the case keeps failing.
static std::vector<uint64_t> shrink(std::vector<uint64_t> best, double budget_s, int max_runs,
                                    std::string &msg) {
    auto t0 = std::chrono::steady_clock::now();
    int runs = 0;
    auto spent = [&]() {
        return runs >= max_runs ||
               std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() >
                   budget_s;
    };
    auto attempt = [&](const std::vector<uint64_t> &c) {
        ++runs;
        Outcome o = run_replay(c);
        if (!o.failed)
            return false;
        std::vector<uint64_t> nb = c;
        // Use what was consumed
        if (o.draws.size() < nb.size())
            nb.resize(o.draws.size());
        best = nb;
        msg = o.msg;
        return true;
    };
    int saved = g_cpu_limit;
    g_cpu_limit = 5;
    bool progress = true;
    while (progress && !spent()) {
        progress = false;
        while (!best.empty() && best.back() == 0)
            best.pop_back();
        for (std::size_t len = std::max<std::size_t>(best.size() / 2, 1); len >= 1 && !spent();
             len /= 2) {
            for (std::size_t i = 0; i + len <= best.size() && !spent();) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c))
                    progress = true;
                else
                    i += len;
            }
            if (len == 1)
                break;
        }
        for (std::size_t i = 0; i < best.size() && !spent(); ++i) {
            if (best[i] == 0)
                continue;
            std::vector<uint64_t> c(best);
            c[i] = 0;
            if (attempt(c)) {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;  // lo passes, hi fails
            while (hi - lo > 1 && !spent() && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best;
                c[i] = mid;
                if (attempt(c)) {
                    hi = mid;
                    progress = true;
                } else {
                    lo = mid;
                }
            }
        }
    }
    g_cpu_limit = saved;
    return best;
}

static std::string one_line(std::string s, std::size_t max = 900) {
    for (auto &c : s)
        if (c == '\n' || c == '\r')
            c = ' ';
    if (s.size() > max)
        s.resize(max);
    return s;
}
static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += static_cast<char>(c);
    }
    return o + "\"";
}

static int usage() {
    fprintf(stderr,
            "usage: check [--tier quick|thorough] [--seed N] [--cases N] [--workers N]\n"
            "             [--replay FILE] [--raw FILE] [--stats FILE] [--replay-dir DIR]\n");
    return 2;
}

static bool read_replay(const std::string &file, std::vector<uint64_t> &draws, bool &batch,
                        uint64_t b[3]) {
    std::ifstream in(file);
    if (!in)
        return false;
    std::string line;
    batch = false;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#')
            continue;
        if (line.compare(0, 5, "batch") == 0) {
            batch = true;
            std::istringstream is(line.substr(5));
            is >> b[0] >> b[1] >> b[2];
            continue;
        }
        std::istringstream is(line);
        uint64_t v;
        while (is >> v)
            draws.push_back(v);
    }
    return true;
}

/// Confirm, shrink and report a failing sequence. true if it is a violation
static bool report(std::vector<uint64_t> draws, const std::string &replay_dir, std::string &msg,
                   uint64_t seed, uint64_t first, uint64_t index) {
    Outcome o;
    bool single = false;
    for (int i = 0; i < 3 && !single; ++i) {
        o = run_replay(draws);
        single = o.failed;
    }
    std::string file = replay_dir + "/" + harness::id + "-" +
                       std::to_string(static_cast<unsigned long long>(seed)) + "-" +
                       std::to_string(static_cast<unsigned long long>(index)) + g_tag + ".replay";
    if (single) {
        msg = o.msg;
        bool hang = msg.find("CPU limit") != std::string::npos;
        std::vector<uint64_t> orig = draws;
        std::string m2 = msg;
        draws = shrink(draws, hang ? 30 : 45, hang ? 8 : 3000, m2);
        int ok = 0;
        for (int i = 0; i < 3; ++i) {
            o = run_replay(draws);
            if (o.failed) {
                ++ok;
                msg = o.msg;
            }
        }
        if (ok < 3) {  // keep the original, unshrunk case if that is more stable
            int ok2 = 0;
            for (int i = 0; i < 3; ++i) {
                o = run_replay(orig);
                if (o.failed) {
                    ++ok2;
                    msg = o.msg;
                }
            }
            if (ok2 >= ok)
                draws = orig;
        }
        std::ofstream out(file);
        out << "# property " << harness::id << "\n# " << one_line(msg) << "\n";
        for (std::size_t i = 0; i < draws.size(); ++i)
            out << draws[i] << ((i % 20 == 19) ? "\n" : " ");
        out << "\n";
        out.close();
        printf("FAILURE: %s\n", one_line(msg, 1500).c_str());
        fflush(stdout);
        run_replay(draws, true);
        printf("VIOLATION property=%s replay=%s\n", harness::id, file.c_str());
        fflush(stdout);
        return true;
    }
    if (first == ~0ull)
        return false;
    for (int i = 0; i < 3; ++i) {
        o = run_batch(seed, first, index + 1);
        if (o.failed) {
            msg = o.msg;
            std::ofstream out(file);
            out << "# property " << harness::id << " (only fails after the preceding cases)\n# "
                << one_line(msg) << "\nbatch " << seed << " " << first << " " << index + 1 << "\n";
            out.close();
            printf("FAILURE (batch of cases): %s\n", one_line(msg, 1500).c_str());
            printf("VIOLATION property=%s replay=%s\n", harness::id, file.c_str());
            fflush(stdout);
            return true;
        }
    }
    return false;
}

}  // namespace pbt

int main(int argc, char **argv) {
    using namespace pbt;
    // Deterministic addresses
    if (!getenv("PBT_NO_REEXEC")) {
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) &&
            personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("PBT_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
            execv(argv[0], argv);
        }
    }
    std::string tier = "quick", replay, raw, stats, replay_dir = ".";
    uint64_t seed = 1, cases = 0, offset = 0;
    int workers = 8;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string {
            if (i + 1 >= argc)
                exit(usage());
            return argv[++i];
        };
        if (a == "--tier")
            tier = val();
        else if (a == "--seed")
            seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases")
            cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--offset")
            offset = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers")
            workers = atoi(val().c_str());
        else if (a == "--replay")
            replay = val();
        else if (a == "--raw")
            raw = val();
        else if (a == "--stats")
            stats = val();
        else if (a == "--replay-dir")
            replay_dir = val();
        else if (a == "--tag")
            g_tag = "-" + val();
        else
            return usage();
    }
    g_thorough = tier == "thorough";
    if (cases == 0)
        cases = g_thorough ? harness::thorough_cases : harness::quick_cases;
    char tmpl[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(tmpl)) {
        perror("mkdtemp");
        return 2;
    }
    g_tmp = tmpl;
    struct Cleanup {
        ~Cleanup() {
            for (int i = 0; i < 64; ++i)
                unlink((g_tmp + "/w" + std::to_string(i) + ".err").c_str());
            unlink((g_tmp + "/replay.err").c_str());
            rmdir(g_tmp.c_str());
        }
    } cleanup;
    Shared *main_shared = make_shared_region(1 << 16);
    g_shared = main_shared;

    if (!replay.empty()) {
        std::vector<uint64_t> draws;
        bool batch;
        uint64_t b[3] = {};
        if (!read_replay(replay, draws, batch, b)) {
            fprintf(stderr, "cannot read %s\n", replay.c_str());
            return 2;
        }
        Outcome o = batch ? run_batch(b[0], b[1], b[2]) : run_replay(draws, true, true);
        if (o.failed) {
            printf("FAILURE: %s\n", o.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", harness::id, replay.c_str());
            return 1;
        }
        printf("replay passes\n");
        return 0;
    }
    if (!raw.empty()) {  // binary CaseRecord left behind by a fuzzing process
        std::ifstream in(raw, std::ios::binary);
        std::vector<char> buf((std::istreambuf_iterator<char>(in)), {});
        if (buf.size() < sizeof(CaseRecord))
            return 2;
        const CaseRecord *r = reinterpret_cast<const CaseRecord *>(buf.data());
        std::vector<uint64_t> draws(r->draws, r->draws + std::min<std::size_t>(r->n_draws, MAX_DRAWS));
        std::string msg;
        return report(draws, replay_dir, msg, seed, ~0ull, 900000000 + getpid() % 1000) ? 1 : 0;
    }

    auto t0 = std::chrono::steady_clock::now();
    // Batches of cases, so that a worker process never lives too long.
    uint64_t batch = std::max<uint64_t>(1, std::min<uint64_t>(2000, (cases + workers - 1) / workers));
    uint64_t next_first = 0;
    struct W {
        pid_t pid;
        uint64_t first, last;
        Shared *sh;
    };
    std::vector<W> ws(workers, W{0, 0, 0, nullptr});
    for (auto &w : ws)
        w.sh = make_shared_region(batch + 16);
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t evaluated = 0, discarded = 0, nontrivial = 0;
    struct Failure {
        uint64_t first, index;
        Outcome o;
    };
    std::vector<Failure> failures;
    int unreproducible = 0;
    auto launch = [&](int k) {
        W &w = ws[k];
        if (next_first >= cases || !failures.empty()) {
            w.pid = 0;
            return;
        }
        w.first = next_first;
        w.last = std::min(cases, next_first + batch);
        next_first = w.last;
        Shared *s = w.sh;
        s->evaluated = s->discarded = s->nontrivial = 0;
        s->n_labels = 0;
        memset(s->label_names, 0, sizeof s->label_names);
        for (auto &c : s->label_counts)
            c = 0;
        s->n_samples = 0;
        s->n_hashes = 0;
        s->rec.msg[0] = 0;
        s->rec.running = 0;
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            g_shared = s;
            child_setup((g_tmp + "/w" + std::to_string(k) + ".err").c_str());
            worker(seed, w.first + offset, w.last + offset, w.first < batch * 2);
        }
        w.pid = p;
    };
    for (int k = 0; k < workers; ++k)
        launch(k);
    for (;;) {
        bool any = false;
        for (auto &w : ws)
            any = any || w.pid;
        if (!any)
            break;
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) {
            if (errno == EINTR)
                continue;
            break;
        }
        for (int k = 0; k < workers; ++k) {
            W &w = ws[k];
            if (w.pid != p)
                continue;
            Shared *s = w.sh;
            evaluated += s->evaluated;
            discarded += s->discarded;
            nontrivial += s->nontrivial;
            for (uint64_t i = 0; i < s->n_hashes; ++i)
                hashes.insert(s->hashes[i]);
            for (int i = 0; i < s->n_labels; ++i)
                labels[s->label_names[i]] += s->label_counts[i];
            for (int i = 0; i < s->n_samples && samples.size() < 8; ++i)
                samples.push_back(s->samples[i]);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                g_shared = s;
                Outcome o = collect(st, g_tmp + "/w" + std::to_string(k) + ".err");
                g_shared = main_shared;
                failures.push_back({w.first + offset, s->rec.case_index, o});
                // others stop after their batch; kill them to save time
                for (auto &v : ws)
                    if (v.pid && v.pid != p)
                        kill(v.pid, SIGKILL);
            }
            if (failures.empty())
                launch(k);
            else
                w.pid = 0;
        }
        if (!failures.empty()) {
            // reap the killed ones
            for (auto &w : ws)
                if (w.pid && w.pid != p) {
                    waitpid(w.pid, &st, 0);
                    w.pid = 0;
                }
            Failure f = failures.front();
            std::string msg;
            g_shared = main_shared;
            if (report(f.o.draws, replay_dir, msg, seed, f.first, f.index)) {
                break;
            }
            fprintf(stderr, "not reproducible (case %llu): %s\n", (unsigned long long)f.index,
                    one_line(f.o.msg).c_str());
            ++unreproducible;
            if (unreproducible > 20)
                break;
            failures.clear();
            // carry on after it
            for (int k = 0; k < workers; ++k)
                launch(k);
        }
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    bool violated = !failures.empty();
    if (!stats.empty()) {
        std::ofstream out(stats);
        out << "{\"property\":" << json_str(harness::id) << ",\"evaluations\":" << evaluated
            << ",\"discarded\":" << discarded << ",\"nontrivial\":" << nontrivial
            << ",\"distinct_nontrivial\":" << hashes.size() << ",\"rule\":" << json_str(harness::rule)
            << ",\"wall\":" << wall << ",\"unreproducible\":" << unreproducible
            << ",\"violations\":" << (violated ? 1 : 0) << ",\"labels\":{";
        bool firstl = true;
        for (auto &l : labels) {
            out << (firstl ? "" : ",") << json_str(l.first) << ":" << l.second;
            firstl = false;
        }
        out << "},\"samples\":[";
        for (std::size_t i = 0; i < samples.size(); ++i)
            out << (i ? "," : "") << json_str(samples[i]);
        out << "]}\n";
    }
    printf("%s%s: %llu cases (%llu distinct non-trivial, %llu discarded) in %.1f s%s\n", harness::id, g_tag.c_str(),
           (unsigned long long)evaluated, (unsigned long long)hashes.size(),
           (unsigned long long)discarded, wall, violated ? "" : ", property held on all of them");
    return violated ? 1 : 0;
}
