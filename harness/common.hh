// Shared by all harnesses: RNG, JSON-lines reporting, watchdog.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

inline uint64_t mix64(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 0x20 || c >= 0x7f) {
            o += fmt("\\u%04x", c);
        } else
            o += c;
    }
    return o + "\"";
}

// One line of JSON per observation on stdout; the driver (run.py) reads them.
struct Report {
    static std::mutex &mu() {
        static std::mutex *m = new std::mutex;
        return *m;
    }
    static std::map<std::string, uint64_t> &counters() {
        static auto *m = new std::map<std::string, uint64_t>;
        return *m;
    }
    static std::string &focus() {
        static auto *s = new std::string;
        return *s;
    }
    static std::atomic_int &violations() {
        static std::atomic_int v{0};
        return v;
    }
    static void line(const std::string &s) {
        std::lock_guard<std::mutex> g(mu());
        fwrite(s.data(), 1, s.size(), stdout);
        fputc('\n', stdout);
        fflush(stdout);
    }
    static void count(const char *k, uint64_t n = 1) {
        counters()[k] += n;
    }
    // tags: space separated property ids ("*" = any). Returns true if the focus property is among them.
    static bool violation(const std::string &tags, const std::string &sig, const std::string &msg,
        const std::string &where, const std::string &log = "") {
        violations()++;
        line("{\"t\":\"violation\",\"tags\":" + jstr(tags) + ",\"sig\":" + jstr(sig) + ",\"msg\":" + jstr(msg) +
             ",\"where\":" + jstr(where) + ",\"log\":" + jstr(log) + "}");
        return focus().empty() || tags == "*" || tags.find(focus()) != std::string::npos;
    }
    static void sample(const std::string &s) {
        line("{\"t\":\"sample\",\"s\":" + jstr(s) + "}");
    }
    static void finish() {
        std::string o = "{\"t\":\"stats\"";
        for (auto &kv : counters())
            o += "," + jstr(kv.first) + ":" + std::to_string(kv.second);
        line(o + "}");
        line("{\"t\":\"done\"}");
    }
};

// A watchdog whose firing means "no progress": exit 77 (the driver re-runs, and only a repeat counts).
struct Watchdog {
    static std::atomic<uint64_t> &ticks() {
        static std::atomic<uint64_t> t{0};
        return t;
    }
    static const char *&what() {
        static const char *w = "";
        return w;
    }
    static void kick() {
        ticks().fetch_add(1, std::memory_order_relaxed);
    }
    static void start(int seconds) {
        std::thread([seconds] {
            uint64_t last = ~0ull;
            int idle = 0;
            while (true) {
                std::this_thread::sleep_for(std::chrono::milliseconds(500));
                uint64_t t = ticks().load(std::memory_order_relaxed);
                if (t != last) {
                    last = t;
                    idle = 0;
                } else if (++idle > seconds * 2) {
                    char b[256];
                    int n = snprintf(b, sizeof b, "{\"t\":\"hang\",\"where\":\"%s\",\"ticks\":%llu}\n", what(),
                        (unsigned long long)t);
                    if (write(1, b, n) < 0) {}
                    _exit(77);
                }
            }
        }).detach();
    }
};

struct Args {
    std::map<std::string, std::string> kv;
    Args(int argc, char **argv) {
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            if (a.rfind("--", 0) == 0) {
                auto e = a.find('=');
                if (e == std::string::npos) kv[a.substr(2)] = "1";
                else kv[a.substr(2, e - 2)] = a.substr(e + 1);
            }
        }
        Report::focus() = str("focus", "");
    }
    std::string str(const char *k, const char *d) const {
        auto i = kv.find(k);
        return i == kv.end() ? d : i->second;
    }
    uint64_t num(const char *k, uint64_t d) const {
        auto i = kv.find(k);
        return i == kv.end() ? d : strtoull(i->second.c_str(), nullptr, 0);
    }
    bool has(const char *k) const { return kv.count(k) != 0; }
};
