#pragma once
#include "ecv.hpp"
namespace ecv
{
    struct Config {
        double branchTimeout = 0.4;
        double proveTimeout = 20;
        double deadline = 1e18;
        size_t maxPaths = 20000;
        size_t maxDepth = 4000;
        size_t maxNodes = 4000000;
        size_t maxPoly = 60000;
        double maxPolyMul = 4e6;
    };
    extern Config cfg;
    struct Obligation {
        std::string name;
        long path;
        int status; // 1 discharged, 0 refuted, -1 undecided
        std::string backend;
        double time;
        std::map<std::string, double> model;
        std::string detail;
    };
    struct Stats {
        long paths = 0, allPaths = 0, infeasible = 0, solverCalls = 0;
        double solverTime = 0, time = 0;
        bool coverSat = false;
        std::string incomplete;
        std::vector<Obligation> obls;
        void add(const Obligation& o) { obls.push_back(o); }
    };
    extern Stats stats;
    extern std::map<std::string, double> choices;
    double now();
    void assume(Fid f);
    void squaresNonneg(const std::vector<Id>& xs);
    int prove(const std::string& name, Fid goal);
    Stats explore(const std::function<void()>& body);
    Id t_pi();
}
