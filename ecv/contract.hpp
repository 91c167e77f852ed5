// Contracts: one text, two interpretations.
//   SymCtx   inputs are symbolic, require() restricts the path condition, ensure() is a proof obligation
//   ConcCtx  inputs are doubles (a solver model, or generated), ensure() is evaluated on the real code
#pragma once
#include "ecv.hpp"
#include "ecv_engine.hpp"
#include <iostream>
#include <random>
#include <sstream>

namespace ecv
{
    // ---- propositions
    struct SB {
        Fid f;
        SB(Fid x) : f(x) { }
        SB(bool b) : f(b ? f_true() : f_false()) { } // a comparison already decided on the path
    };
    inline SB operator&&(SB a, SB b) { return SB(f_and(a.f, b.f)); }
    inline SB operator||(SB a, SB b) { return SB(f_or(a.f, b.f)); }
    inline SB operator!(SB a) { return SB(f_not(a.f)); }
    struct CB {
        int v;      // 1 true, 0 false, 2 within rounding of the boundary
        double m;   // difference of the two sides of the comparison that decided (0: not a comparison)
        CB(int x, double d = 0) : v(x), m(d) { }
    };
    inline CB operator!(CB a) { return CB(a.v == 2 ? 2 : !a.v, a.m); }
    inline CB operator&&(CB a, CB b) { return a.v == 0 ? a : b.v == 0 ? b : a.v == 2 ? a : b; }
    inline CB operator||(CB a, CB b) { return !(!a && !b); }

    struct SymCtx {
        typedef Sym R;
        typedef SB B;
        static const bool symbolic = true;
        Sym real(const std::string& n) { return Sym::of(t_var(n)); }
        // exhaustive finite choice 0..n-1
        int choose(const std::string& nm, int n)
        {
            int r = n - 1;
            for (int i = 0; i < n - 1; ++i)
                if (decide(f_eq(t_var("?" + nm), t_const_i(i)))) { r = i; break; }
            choices[nm] = r;
            return r;
        }
        SB eq(const Sym& a, const Sym& b, double = 0) { return SB(f_eq(a.id, b.id)); }
        SB ne(const Sym& a, const Sym& b) { return SB(f_not(f_eq(a.id, b.id))); }
        SB lt(const Sym& a, const Sym& b) { return SB(f_lt(a.id, b.id)); }
        SB le(const Sym& a, const Sym& b) { return SB(f_le(a.id, b.id)); }
        SB gt(const Sym& a, const Sym& b) { return lt(b, a); }
        SB ge(const Sym& a, const Sym& b) { return le(b, a); }
        // |a-b| <= tol, an obligation of its own right (not a rounding allowance)
        SB near(const Sym& a, const Sym& b, double tol) { return le(a - b, Sym(tol)) && le(b - a, Sym(tol)); }
        SB is(bool b) { return SB(b ? f_true() : f_false()); }
        void require(SB b) { assume(b.f); }
        void ensure(const std::string& name, SB b) { prove(name, b.f); }
        // proof cut: prove the fact, then use it
        void lemma(const std::string& name, SB b)
        {
            if (prove(name, b.f) == 1) assume(b.f);
        }
        void requireWeak(SB b) { assume(b.f); }
        // tells the engine that x^2+y^2+z^2 >= 0 for terms it could not recognise as a sum of squares after expansion
        void squares(const Sym& x, const Sym& y, const Sym& z) { squaresNonneg({ x.id, y.id, z.id }); }
        Sym in(const std::string& n, double lo, double hi)
        {
            Sym x = real(n);
            require(ge(x, Sym(lo)) && le(x, Sym(hi)));
            return x;
        }
        Sym pi() { return Sym::of(t_pi()); }
        double mag(const Sym&) { return 0; }
        void branchTimeout(double t) { cfg.branchTimeout = t; }
        void proveTimeout(double t) { cfg.proveTimeout = t; }
        bool isTrue(SB b) { return decide(b.f); }
    };

    struct Reject { };
    // executes a contract on concrete scalars (double, or long double to rule out rounding artefacts)
    struct ConcState {
        std::map<std::string, double> given, used;
        bool useGiven = false;
        std::vector<std::string> failed;
        std::map<std::string, double> margin; // largest difference behind a failure of that name
        long ensures = 0;
        std::mt19937_64 rng;
        int mode = 0;
        double tol = 1e-7;
        double gen();
        double draw(const std::string& n, double lo, double hi, bool ranged);
        int pick(const std::string& n, int k);
    };
    template <class T>
    struct ConcCtxT : ConcState {
        typedef T R;
        typedef CB B;
        static const bool symbolic = false;
        T real(const std::string& n) { return T(draw(n, 0, 0, false)); }
        T in(const std::string& n, double lo, double hi) { return T(draw(n, lo, hi, true)); }
        int choose(const std::string& n, int k) { return pick(n, k); }
        double sc(T a, T b) { return tol * (1 + std::fabs((double)a) + std::fabs((double)b)); }
        CB eq(T a, T b, double scale = 0)
        {
            if (!(a == a) || !(b == b)) return CB(0);
            T d = std::fabs(a - b);
            if (d == 0) return CB(1);
            return CB(d <= sc(a, b) + tol * scale ? 2 : 0, double(d));
        }
        CB ne(T a, T b) { return !eq(a, b); }
        CB lt(T a, T b)
        {
            if (!(a == a) || !(b == b)) return CB(0);
            double t = sc(a, b);
            return CB(a < b - t ? 1 : a > b + t ? 0 : 2, double(a - b));
        }
        CB le(T a, T b)
        {
            if (!(a == a) || !(b == b)) return CB(0);
            double t = sc(a, b);
            return CB(a <= b - t || a == b ? 1 : a > b + t ? 0 : 2, double(a - b));
        }
        CB gt(T a, T b) { return lt(b, a); }
        CB ge(T a, T b) { return le(b, a); }
        CB near(T a, T b, double t) { return le(std::fabs(a - b), t); }
        CB is(bool b) { return CB(b ? 1 : 0); }
        void require(CB b)
        {
            if (b.v != 1) throw Reject();
        }
        // precondition that may hold with equality (2 = within rounding of the boundary)
        void requireWeak(CB b)
        {
            if (b.v == 0) throw Reject();
        }
        void ensure(const std::string& name, CB b)
        {
            ++ensures;
            if (b.v == 0)
            {
                failed.push_back(name);
                double& m = margin[name];
                m = std::max(m, std::fabs(b.m));
            }
        }
        void lemma(const std::string&, CB) { }
        void squares(T, T, T) { }
        T pi() { return T(M_PIl); }
        // magnitude, for the rounding allowance of eq only
        double mag(T x) { return std::fabs((double)x); }
        void branchTimeout(double) { }
        void proveTimeout(double) { }
        bool isTrue(CB b) { return b.v == 1; }
    };
    typedef ConcCtxT<double> ConcCtx;
    typedef ConcCtxT<long double> ConcCtxL;

    struct Contract {
        std::string name, property, covers, bound; // bound: empty for an unbounded proof
        void (*sym)(SymCtx&);
        void (*conc)(ConcCtx&);
        void (*concl)(ConcCtxL&); // same contract over long double
    };
    std::vector<Contract>& registry();
    struct Reg {
        Reg(const char* n, const char* p, const char* cov, const char* b, void (*s)(SymCtx&), void (*c)(ConcCtx&), void (*l)(ConcCtxL&))
        {
            registry().push_back({ n, p, cov, b, s, c, l });
        }
    };
    int runMain(int argc, char** argv);
}

#ifdef ECV_CONCRETE_ONLY
#define ECV_SYMFN(fn) nullptr
#else
#define ECV_SYMFN(fn) &fn<ecv::SymCtx>
#endif
#ifdef ECV_NO_LD
#define ECV_LDFN(fn) nullptr
#else
#define ECV_LDFN(fn) &fn<ecv::ConcCtxL>
#endif
#define ECV_REG(prop, fn, covers, bnd, sym)                                                            \
    template <class C> void fn(C& c);                                                                  \
    static ecv::Reg reg_##fn(#fn, prop, covers, bnd, sym, &fn<ecv::ConcCtx>, ECV_LDFN(fn));            \
    template <class C> void fn(C& c)
// proved for every input
#define CONTRACT(prop, fn, covers) ECV_REG(prop, fn, covers, "", ECV_SYMFN(fn))
// proved for every scalar input, structure sizes bounded as stated
#define BOUNDED_CONTRACT(prop, fn, covers, bnd) ECV_REG(prop, fn, covers, bnd, ECV_SYMFN(fn))
// evaluated on generated inputs of the real code only (bounded stand-in, never counted as proved)
#define RUNTIME_CONTRACT(prop, fn, covers, bnd) ECV_REG(prop, fn, covers, bnd, nullptr)
