// Shared machinery of the explorers: reporting, counters, per-case watchdog, replay filter, scripted random engine.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <utility>
#include <vector>

namespace mc
{
inline std::string esc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r;
}

struct violation {
    std::string key, at, msg;
};

struct report {
    std::string out;
    bool thorough = false;
    std::string only; // replay: run only this case
    unsigned shard = 0, shards = 1, index = 0; // cases are dealt round-robin to the shards
    double limit = 60.;
    std::uint64_t states = 0, transitions = 0, traces = 0, cases = 0, checks = 0;
    bool exhaustive = true;
    std::vector<violation> viol;
    std::uint64_t total_viol = 0;
    std::map<std::string, unsigned> viol_count;
    std::vector<std::string> samples;
    std::set<std::string> outcomes;
    std::map<std::string, std::uint64_t> counters;
    std::vector<std::string> notes;
    char *shared = nullptr; // mmapped: description of the case being explored (survives a crash)
    std::atomic<std::uint64_t> tick{0};
    std::string cur;

    static report &get()
    {
        static report *r = new report();
        return *r;
    }
    void write(bool complete)
    {
        if (out.empty()) {
            return;
        }
        std::ofstream f(out + ".tmp");
        f << "{\"complete\":" << (complete ? "true" : "false") << ",\"states\":" << states
          << ",\"transitions\":" << transitions << ",\"traces\":" << traces << ",\"cases\":" << cases
          << ",\"checks\":" << checks << ",\"outcomes\":" << outcomes.size()
          << ",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\n\"counters\":{";
        bool first = true;
        for (auto &c : counters) {
            f << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second;
            first = false;
        }
        f << "},\n\"violations\":[";
        first = true;
        for (auto &v : viol) {
            f << (first ? "" : ",\n") << "{\"key\":\"" << esc(v.key) << "\",\"case\":\"" << esc(v.at)
              << "\",\"msg\":\"" << esc(v.msg) << "\"}";
            first = false;
        }
        f << "],\n\"samples\":[";
        first = true;
        for (auto &s : samples) {
            f << (first ? "" : ",\n") << "\"" << esc(s) << "\"";
            first = false;
        }
        f << "],\n\"notes\":[";
        first = true;
        for (auto &s : notes) {
            f << (first ? "" : ",\n") << "\"" << esc(s) << "\"";
            first = false;
        }
        f << "]}\n";
        f.close();
        std::rename((out + ".tmp").c_str(), out.c_str());
    }
};

inline report &rep()
{
    return report::get();
}

// begin one case (unit of exploration); returns false if a replay filter excludes it
inline bool begin(const std::string &desc)
{
    auto &r = rep();
    if (!r.only.empty() ? r.only != desc : (r.index++ % r.shards != r.shard)) {
        return false;
    }
    r.cur = desc;
    ++r.cases;
    ++r.tick;
    if (r.shared) {
        std::size_t n = std::min<std::size_t>(desc.size(), 4000u);
        std::memcpy(r.shared, desc.data(), n);
        r.shared[n] = 0;
    }
    return true;
}
// sub-step within a case, for crash reports and the watchdog only
inline void step(const std::string &desc)
{
    auto &r = rep();
    ++r.tick;
    if (r.shared) {
        std::string d = r.cur + " :: " + desc;
        std::size_t n = std::min<std::size_t>(d.size(), 4000u);
        std::memcpy(r.shared, d.data(), n);
        r.shared[n] = 0;
    }
}
inline void alive()
{
    ++rep().tick;
}
inline void fail(const std::string &key, const std::string &msg)
{
    auto &r = rep();
    ++r.total_viol;
    if (++r.viol_count[key] <= 3u && r.viol.size() < 60u) {
        r.viol.push_back({key, r.cur, msg});
        std::cerr << "FAIL [" << key << "] case{" << r.cur << "} " << msg << std::endl;
        r.write(false); // so that it survives a later crash
    }
    if (r.total_viol > 500u) { // broken beyond doubt
        r.write(true);
        std::fflush(nullptr);
        ::_exit(1);
    }
}
template <typename F>
inline bool check(bool ok, const char *key, F msg)
{
    ++rep().checks;
    if (!ok) {
        fail(key, msg());
    }
    return ok;
}
inline void sample(const std::string &s)
{
    auto &r = rep();
    if (r.samples.size() < 12u) {
        r.samples.push_back(s);
    }
}
inline void outcome(const std::string &s)
{
    auto &r = rep();
    if (r.outcomes.size() < 2000000u) {
        r.outcomes.insert(s);
    }
}

template <typename T>
std::string str(const T &x)
{
    std::ostringstream s;
    s.precision(17);
    s << x;
    return s.str();
}
template <typename T>
std::string str(const std::vector<T> &x)
{
    std::string r = "[";
    for (std::size_t i = 0; i < x.size(); ++i) {
        r += (i ? "," : "") + str(x[i]);
    }
    return r + "]";
}
inline bool close(double a, double b, double rtol = 1e-9, double atol = 1e-11)
{
    if (std::isnan(a) || std::isnan(b)) {
        return std::isnan(a) && std::isnan(b);
    }
    if (std::isinf(a) || std::isinf(b)) {
        return a == b;
    }
    return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}
inline bool close(const std::vector<double> &a, const std::vector<double> &b, double rtol = 1e-9, double atol = 1e-11)
{
    if (a.size() != b.size()) {
        return false;
    }
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (!close(a[i], b[i], rtol, atol)) {
            return false;
        }
    }
    return true;
}
inline bool same_bits(double a, double b)
{
    return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b));
}
inline bool same_bits(const std::vector<double> &a, const std::vector<double> &b)
{
    if (a.size() != b.size()) {
        return false;
    }
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (!same_bits(a[i], b[i])) {
            return false;
        }
    }
    return true;
}
// what happened when calling f: "" = returned, otherwise the kind of exception
template <typename F>
std::string outcome_of(F f)
{
    try {
        f();
        return "";
    } catch (const std::invalid_argument &) {
        return "invalid_argument";
    } catch (const std::exception &e) {
        return std::string("exception:") + typeid(e).name();
    } catch (...) {
        return "unknown-exception";
    }
}

// iterate over all tuples with digit i in [0, dims[i])
template <typename F>
void product(const std::vector<unsigned> &dims, F f)
{
    for (auto d : dims) {
        if (d == 0u) {
            return;
        }
    }
    std::vector<unsigned> v(dims.size(), 0u);
    while (true) {
        f(static_cast<const std::vector<unsigned> &>(v));
        std::size_t i = 0;
        for (; i < v.size(); ++i) {
            if (++v[i] < dims[i]) {
                break;
            }
            v[i] = 0u;
        }
        if (i == v.size()) {
            return;
        }
    }
}

// ---- nondeterminism: every draw of a random engine (or any other environment answer) is a choice ----
struct chooser {
    std::vector<unsigned> choice;  // choices taken (prefix imposed, then 0)
    std::vector<unsigned> arity;   // arity of each point
    std::size_t pos = 0;
    std::size_t depth = 0;         // number of points that are enumerated; later ones rotate deterministically
    unsigned K = 2;
    bool active = false;
    std::uint64_t draws = 0;
    static chooser &get()
    {
        static chooser c;
        return c;
    }
    unsigned pick(unsigned k)
    {
        ++draws;
        if (draws > 2000000u) {
            throw std::runtime_error("mc: more than 2000000 random draws in one execution");
        }
        if (pos < depth) {
            if (pos == choice.size()) {
                choice.push_back(0u);
                arity.push_back(k);
            }
            if (arity[pos] != k) {
                std::cerr << "mc: replay divergence" << std::endl;
                std::abort();
            }
            return choice[pos++];
        }
        ++pos;
        return static_cast<unsigned>((pos * 7u + pos / k) % k);
    }
};
// run body on every choice sequence of at most `depth` enumerated points of K alternatives; returns number of runs
template <typename F>
std::uint64_t explore(unsigned K, std::size_t depth, F body)
{
    auto &c = chooser::get();
    c.choice.clear();
    c.arity.clear();
    c.depth = depth;
    c.K = K;
    std::uint64_t runs = 0;
    while (true) {
        c.pos = 0;
        c.draws = 0;
        c.active = true;
        body();
        c.active = false;
        ++runs;
        std::size_t used = std::min(c.pos, depth);
        c.choice.resize(std::min(used, c.choice.size()));
        c.arity.resize(c.choice.size());
        while (!c.choice.empty() && c.choice.back() + 1u >= c.arity.back()) {
            c.choice.pop_back();
            c.arity.pop_back();
        }
        if (c.choice.empty()) {
            return runs;
        }
        ++c.choice.back();
    }
}
inline std::string choices()
{
    return str(chooser::get().choice);
}

// Scripted replacement of the library's random engine (DCGP_VERIF_RANDOM_ENGINE): same range as std::mt19937.
// While a chooser is active its draws are enumerated; otherwise it is a small deterministic generator.
class script_engine
{
public:
    using result_type = std::uint_fast32_t;
    static constexpr result_type default_seed = 5489u;
    static constexpr result_type min()
    {
        return 0u;
    }
    static constexpr result_type max()
    {
        return 0xffffffffu;
    }
    script_engine() : m_s(default_seed) {}
    explicit script_engine(result_type s) : m_s(s) {}
    void seed(result_type s = default_seed)
    {
        m_s = s;
    }
    result_type operator()()
    {
        auto &c = chooser::get();
        if (c.active) {
            unsigned i = c.pick(c.K);
            return static_cast<result_type>((static_cast<std::uint64_t>(2u * i + 1u) << 31) / c.K);
        }
        m_s = m_s * 6364136223846793005ull + 1442695040888963407ull;
        std::uint64_t z = m_s ^ (m_s >> 33);
        z *= 0xff51afd7ed558ccdull;
        return static_cast<result_type>((z ^ (z >> 29)) & 0xffffffffu);
    }
    void discard(unsigned long long n)
    {
        for (; n; --n) {
            (*this)();
        }
    }
    friend bool operator==(const script_engine &a, const script_engine &b)
    {
        return a.m_s == b.m_s;
    }
    friend bool operator!=(const script_engine &a, const script_engine &b)
    {
        return !(a == b);
    }
    friend std::ostream &operator<<(std::ostream &os, const script_engine &e)
    {
        return os << e.m_s;
    }
    friend std::istream &operator>>(std::istream &is, script_engine &e)
    {
        return is >> e.m_s;
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_s;
    }

private:
    std::uint64_t m_s;
};

inline int main(int argc, char **argv, const std::function<void()> &body)
{
    auto &r = rep();
    std::string cur;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") {
            r.out = val();
        } else if (a == "--thorough") {
            r.thorough = true;
        } else if (a == "--case") {
            r.only = val();
        } else if (a == "--shard") {
            r.shard = static_cast<unsigned>(std::atoi(val().c_str()));
        } else if (a == "--shards") {
            r.shards = static_cast<unsigned>(std::atoi(val().c_str()));
        } else if (a == "--limit") {
            r.limit = std::atof(val().c_str());
        }
    }
    if (!r.out.empty()) {
        int fd = ::open((r.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ::ftruncate(fd, 8192) == 0) {
            void *p = ::mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) {
                r.shared = static_cast<char *>(p);
            }
            ::close(fd);
        }
    }
    std::thread([&r]() {
        std::uint64_t last = r.tick.load();
        double idle = 0.;
        while (true) {
            std::this_thread::sleep_for(std::chrono::milliseconds(500));
            auto t = r.tick.load();
            if (t != last) {
                last = t;
                idle = 0.;
            } else if ((idle += 0.5) > r.limit) {
                std::fprintf(stderr, "HANG: no progress for %g s\n", r.limit);
                ::_exit(97);
            }
        }
    }).detach();
    try {
        body();
    } catch (const std::exception &e) {
        fail("unexpected-exception", std::string("exception escaped: ") + e.what());
    }
    r.write(true);
    std::fflush(nullptr);
    ::_exit(r.viol.empty() ? 0 : 1);
}
} // namespace mc
#endif
