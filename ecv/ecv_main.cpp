// Driver of a contract binary:
//   bin --list
//   bin --prove NAME --budget SECONDS
//   bin --search NAME --seed N --budget SECONDS --runs N
//   bin --replay NAME  k=v k=v ...
#include "contract.hpp"
#include <csignal>
#include <cstdio>
#include <cstring>
#include <malloc.h>
#include <unistd.h>

namespace ecv
{
    std::vector<Contract>& registry()
    {
        static std::vector<Contract> r;
        return r;
    }
    static std::string js(const std::string& s)
    {
        std::string o = "\"";
        for (char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if ((unsigned char)c < 32) o += ' ';
            else o += c;
        }
        return o + "\"";
    }
    static std::string num(double d)
    {
        if (!(d == d) || d > 1e308 || d < -1e308) return "0";
        char b[64];
        snprintf(b, sizeof b, "%.17g", d);
        return b;
    }
    static std::string jm(const std::map<std::string, double>& m)
    {
        std::string o = "{";
        bool f = true;
        for (auto& k : m)
        {
            if (!f) o += ",";
            f = false;
            o += js(k.first) + ":" + num(k.second);
        }
        return o + "}";
    }
    double ConcState::gen()
    {
        int m = mode;
        if (m == 6) m = (int)(rng() % 6);
        std::uniform_real_distribution<double> u(-1, 1);
        switch (m)
        {
        case 0: return (double)((long)(rng() % 9) - 4);
        case 1: return ((long)(rng() % 33) - 16) * 0.25;
        case 2: return u(rng) * 5;
        case 3: return (double)((long)(rng() % 3) - 1);
        case 4: return u(rng) * std::pow(10.0, (double)((long)(rng() % 5) - 2));
        case 5: return (double)((long)(rng() % 2)) * 0.5 + (rng() % 4 ? 0 : u(rng));
        }
        return 0;
    }
    double ConcState::draw(const std::string& n, double lo, double hi, bool ranged)
    {
        auto it = used.find(n);
        if (it != used.end()) return it->second;
        double v;
        if (useGiven)
        {
            auto g = given.find(n);
            v = g == given.end() ? (ranged ? (lo + hi) / 2 : 0.0) : g->second;
        }
        else if (ranged)
        {
            std::uniform_real_distribution<double> u(0, 1);
            unsigned k = rng() % 8;
            if (k == 0) v = lo + (hi - lo) * 0.5;
            else if (k <= 2) v = lo + (hi - lo) * (double)(1 + rng() % 7) / 8.0;
            else v = lo + (hi - lo) * u(rng);
        }
        else v = gen();
        used[n] = v;
        return v;
    }
    int ConcState::pick(const std::string& n, int k)
    {
        int v;
        auto it = used.find(n);
        if (it != used.end()) return (int)it->second;
        if (useGiven && given.count(n)) v = (int)given[n];
        else if (useGiven) v = 0;
        else v = (int)(rng() % k);
        if (v < 0 || v >= k) v = 0;
        used[n] = v;
        return v;
    }
    static ConcState* cur = nullptr;
    static void onCrash(int sig)
    {
        std::string s = "{\"event\":\"crash\",\"signal\":" + std::to_string(sig) + ",\"inputs\":" + (cur ? jm(cur->used) : "{}") + "}\n";
        if (write(1, s.data(), s.size()) < 0) { }
        _exit(42);
    }
    // returns false if rejected by the precondition
    template <class Ctx>
    static bool runFn(void (*f)(Ctx&), Ctx& c)
    {
        cur = &c;
        try
        {
            f(c);
        }
        catch (Reject&)
        {
            if (c.failed.empty()) return false;
        }
        catch (std::exception& ex)
        {
            c.failed.push_back(std::string("no exception escapes (") + ex.what() + ")");
        }
        return true;
    }
    // A failed postcondition over double counts when it also fails over long double
    // at the same inputs: the properties are about the reals, not about rounding.
    static bool confirm(const Contract& k, ConcCtx& c)
    {
        if (c.failed.empty() || !k.concl) return !c.failed.empty();
        ConcCtxL l;
        l.useGiven = true;
        l.given = c.used;
        runFn(k.concl, l);
        std::vector<std::string> both;
        for (auto& n : c.failed)
            for (auto& m : l.failed)
                if (n == m)
                {
                    // a difference made by rounding shrinks with the longer type, a real one stays
                    double a = c.margin[n], b = l.margin[m], t = std::max(a, b);
                    if (!std::isfinite(t) || std::fabs(a - b) <= 0.5 * t) both.push_back(n);
                    break;
                }
        c.failed = both;
        return !both.empty();
    }
    static bool runConc(const Contract& k, ConcCtx& c)
    {
        bool ok = runFn(k.conc, c);
        if (!c.failed.empty()) confirm(k, c);
        return ok;
    }
    int runMain(int argc, char** argv)
    {
        mallopt(M_PERTURB, 0x01); // fresh heap memory reads as an uninitialised scalar
        std::string cmd = argc > 1 ? argv[1] : "--list", name;
        double budget = 60;
        long seed = 1, runs = 1000000000;
        std::map<std::string, double> given;
        if (argc > 2) name = argv[2];
        for (int i = 3; i < argc; ++i)
        {
            std::string a = argv[i];
            if (a == "--budget") budget = atof(argv[++i]);
            else if (a == "--seed") seed = atol(argv[++i]);
            else if (a == "--runs") runs = atol(argv[++i]);
            else if (a == "--prove-timeout") cfg.proveTimeout = atof(argv[++i]);
            else
            {
                size_t p = a.rfind('=');
                if (p != std::string::npos) given[a.substr(0, p)] = strtod(a.c_str() + p + 1, nullptr);
            }
        }
        if (cmd == "--list")
        {
            for (auto& k : registry())
                printf("{\"name\":%s,\"property\":%s,\"covers\":%s,\"bound\":%s,\"symbolic\":%s}\n", js(k.name).c_str(), js(k.property).c_str(), js(k.covers).c_str(), js(k.bound).c_str(), k.sym ? "true" : "false");
            return 0;
        }
        const Contract* k = nullptr;
        for (auto& x : registry()) if (x.name == name) k = &x;
        if (!k) { fprintf(stderr, "no contract %s\n", name.c_str()); return 2; }
        for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGALRM }) signal(s, onCrash);
        if (cmd == "--prove")
        {
            if (!k->sym) { printf("{\"event\":\"skipped\"}\n"); return 0; }
            cfg.deadline = now() + budget;
            Stats st = explore([&] { SymCtx c; k->sym(c); });
            for (auto& o : st.obls)
            {
                printf("{\"event\":\"obligation\",\"name\":%s,\"path\":%ld,\"status\":%d,\"backend\":%s,\"time\":%.4f", js(o.name).c_str(), o.path, o.status, js(o.backend).c_str(), o.time);
                if (o.status != 1) printf(",\"detail\":%s,\"model\":%s", js(o.detail).c_str(), jm(o.model).c_str());
                printf("}\n");
            }
            printf("{\"event\":\"summary\",\"paths\":%ld,\"infeasible\":%ld,\"solverCalls\":%ld,\"solverTime\":%.3f,\"time\":%.3f,\"cover\":%s,\"incomplete\":%s}\n", st.paths, st.infeasible, st.solverCalls, st.solverTime, st.time, st.coverSat ? "true" : "false", js(st.incomplete).c_str());
            return 0;
        }
        if (cmd == "--replay")
        {
            alarm(60);
            ConcCtx c;
            c.useGiven = true;
            c.given = given;
            bool ok = runConc(*k, c);
            printf("{\"event\":\"replay\",\"accepted\":%s,\"failed\":[", ok ? "true" : "false");
            for (size_t i = 0; i < c.failed.size(); ++i) printf("%s%s", i ? "," : "", js(c.failed[i]).c_str());
            printf("],\"inputs\":%s}\n", jm(c.used).c_str());
            return c.failed.empty() ? 0 : 1;
        }
        if (cmd == "--search")
        {
            double t0 = now();
            long n = 0, acc = 0, ens = 0;
            std::set<size_t> seen;
            std::string samples;
            int ns = 0;
            for (; n < runs && now() - t0 < budget; ++n)
            {
                if (n % 64 == 0) alarm(60);
                ConcCtx c;
                c.rng.seed((uint64_t)seed * 1000003ULL + (uint64_t)n);
                c.mode = (int)(n % 7);
                bool ok = runConc(*k, c);
                if (ok)
                {
                    ++acc; ens += c.ensures;
                    if (seen.size() < 400000)
                    {
                        size_t h = 1469598103934665603ULL;
                        for (auto& u : c.used) { uint64_t b; memcpy(&b, &u.second, 8); h = (h ^ b) * 1099511628211ULL; }
                        seen.insert(h);
                    }
                    if (ns < 2) { samples += (ns++ ? "," : "") + jm(c.used); }
                }
                if (!c.failed.empty())
                {
                    printf("{\"event\":\"violation\",\"name\":%s,\"run\":%ld,\"inputs\":%s}\n", js(c.failed[0]).c_str(), n, jm(c.used).c_str());
                    break;
                }
            }
            printf("{\"event\":\"search\",\"runs\":%ld,\"accepted\":%ld,\"ensures\":%ld,\"distinct\":%zu,\"samples\":[%s],\"time\":%.3f}\n", n, acc, ens, seen.size(), samples.c_str(), now() - t0);
            return 0;
        }
        return 2;
    }
}
int main(int argc, char** argv) { return ecv::runMain(argc, argv); }
