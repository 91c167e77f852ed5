// ECV engine: terms, exact normal forms, path exploration, obligation discharge.
#include "ecv.hpp"
#include "ecv_engine.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <gmpxx.h>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <unordered_map>
#include <z3++.h>

namespace ecv
{
    typedef mpq_class Q;

    double now()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    // ------------------------------------------------------------------ terms
    enum Op { OP_CONST, OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_NEG };
    struct Node {
        Op op;
        Id a, b;
        Q c;
        int var;
    };
    enum VKind { VK_INPUT, VK_FRESH, VK_SQRT, VK_FN, VK_FLOOR, VK_UNINIT, VK_INV, VK_PI };
    struct Poly;
    typedef std::shared_ptr<const Poly> PolyP;
    struct VarInfo {
        std::string name;
        bool isInt;
        VKind kind;
        Id term; // the OP_VAR node
        Id arg, arg2;
        PolyP poly; // VK_SQRT: s^2 ; VK_INV: the polynomial inverted
        std::vector<Fid> axioms;
        bool nonneg, positive;
    };

    struct Key {
        int op;
        Id a, b;
        bool operator==(const Key& o) const { return op == o.op && a == o.a && b == o.b; }
    };
    struct KeyH {
        size_t operator()(const Key& k) const { return ((size_t)k.op * 1000003u + k.a) * 1000003u + k.b; }
    };

    // monomial: sorted (var, exponent) with exponent != 0
    typedef std::vector<std::pair<int, int>> Mono;
    struct MonoLess {
        // graded lexicographic order
        bool operator()(const Mono& x, const Mono& y) const
        {
            int dx = 0, dy = 0;
            for (auto& p : x) dx += p.second;
            for (auto& p : y) dy += p.second;
            if (dx != dy) return dx < dy;
            size_t i = 0;
            for (; i < x.size() && i < y.size(); ++i)
            {
                if (x[i] == y[i]) continue;
                if (x[i].first == y[i].first) return x[i].second < y[i].second;
                return x[i].first < y[i].first ? x[i].second < 0 : y[i].second > 0;
            }
            return i < x.size() ? x[i].second < 0 : i < y.size() && y[i].second > 0;
        }
    };
    struct Poly {
        std::map<Mono, Q, MonoLess> t;
        bool zero() const { return t.empty(); }
        bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
        Q constVal() const { return t.empty() ? Q(0) : t.begin()->second; }
    };
    struct TooBig { };

    struct Form {
        enum K { T, F, LT, LE, EQ, NE, AND, OR } k;
        Id t; // LT: t<0, LE: t<=0, EQ: t==0
        Fid a, b;
    };

    struct Engine {
        std::vector<Node> nodes;
        std::unordered_map<Key, Id, KeyH> cons;
        std::map<Q, Id> consts;
        std::vector<VarInfo> vars;
        std::map<std::string, int> varByName;
        std::map<std::string, int> algByKey;
        std::vector<PolyP> nfc;
        std::vector<Form> forms;
        std::map<std::string, Fid> atomByKey;
        std::map<std::pair<int, std::pair<Fid, Fid>>, Fid> conn;

        // path state
        std::vector<Fid> pc;
        std::vector<char> prefix, trace;
        size_t pos = 0;
        std::vector<std::vector<char>> todo;
        int freshN = 0;
        std::map<std::pair<std::vector<Fid>, Fid>, int> feasCache;
        std::map<std::pair<std::vector<Fid>, Fid>, std::map<std::string, int>> proveCache;
        std::map<std::pair<std::vector<Fid>, std::pair<Id, int>>, long> concCache;
        std::map<int, int> signV;
        std::map<std::string, int> signP;
        struct Bnd { bool hasLo = false, hasHi = false, loStrict = false, hiStrict = false; Q lo, hi; };
        std::map<std::string, Bnd> bnd; // constant bounds of monic polynomials without constant term
        bool active = false;

        Engine()
        {
            Node n;
            n.op = OP_CONST; n.a = n.b = 0; n.c = 0; n.var = -1;
            nodes.push_back(n);
            consts[Q(0)] = 0;
            nfc.push_back(std::make_shared<Poly>());
            forms.push_back({ Form::T, 0, 0, 0 });
            forms.push_back({ Form::F, 0, 0, 0 });
        }
    };
    static Engine& E()
    {
        static Engine e;
        return e;
    }
    Config cfg;
    Stats stats;
    std::map<std::string, double> choices;

    static Id mk(Op op, Id a, Id b)
    {
        Engine& e = E();
        Key k { op, a, b };
        auto it = e.cons.find(k);
        if (it != e.cons.end()) return it->second;
        Node n;
        n.op = op; n.a = a; n.b = b; n.var = -1;
        Id id = (Id)e.nodes.size();
        e.nodes.push_back(n);
        e.nfc.push_back(nullptr);
        e.cons[k] = id;
        if (e.nodes.size() > cfg.maxNodes) throw Unsupported("term store limit");
        return id;
    }
    static Id mkConst(const Q& q)
    {
        Engine& e = E();
        auto it = e.consts.find(q);
        if (it != e.consts.end()) return it->second;
        Node n;
        n.op = OP_CONST; n.a = n.b = 0; n.c = q; n.var = -1;
        Id id = (Id)e.nodes.size();
        e.nodes.push_back(n);
        auto p = std::make_shared<Poly>();
        if (q != 0) p->t[Mono()] = q;
        e.nfc.push_back(p);
        e.consts[q] = id;
        return id;
    }
    static int newVar(const std::string& name, bool isInt, VKind kind)
    {
        Engine& e = E();
        VarInfo v;
        v.name = name; v.isInt = isInt; v.kind = kind; v.arg = v.arg2 = 0; v.nonneg = v.positive = false;
        Node n;
        n.op = OP_VAR; n.a = n.b = 0; n.var = (int)e.vars.size();
        v.term = (Id)e.nodes.size();
        e.nodes.push_back(n);
        e.nfc.push_back(nullptr);
        e.vars.push_back(v);
        return (int)e.vars.size() - 1;
    }

    static Id live(Id a)
    {
        if (a >= E().nodes.size()) return t_fresh("uninit"); // read of an uninitialised scalar: any value
        return a;
    }

    // -------------------------------------------------------------- constants
    // A double literal / double-computed constant stands for the real number the
    // program means by it: short decimals, small fractions, k*pi and square roots
    // of small fractions are read as those exact reals; anything else is taken
    // as its exact binary value.
    static bool niceRational(double v, Q& out)
    {
        if (v == std::floor(v) && std::fabs(v) < 1e15) { out = Q(v); return true; }
        char buf[64];
        for (int prec = 1; prec <= 9; ++prec)
        {
            snprintf(buf, sizeof buf, "%.*e", prec - 1, v);
            if (strtod(buf, nullptr) == v)
            {
                // mantissa e exponent
                std::string s(buf);
                size_t pe = s.find('e');
                std::string man = s.substr(0, pe);
                int ex = atoi(s.c_str() + pe + 1);
                bool neg = man[0] == '-';
                if (neg) man = man.substr(1);
                std::string digits;
                int frac = 0;
                bool dot = false;
                for (char c : man)
                {
                    if (c == '.') dot = true;
                    else { digits += c; if (dot) ++frac; }
                }
                mpz_class num(digits), den(1);
                int e10 = ex - frac;
                mpz_class ten;
                mpz_ui_pow_ui(ten.get_mpz_t(), 10, std::abs(e10));
                if (e10 >= 0) num *= ten; else den = ten;
                out = Q(num, den);
                out.canonicalize();
                if (neg) out = -out;
                return true;
            }
        }
        // continued fraction
        double x = std::fabs(v);
        mpz_class p0(0), q0(1), p1(1), q1(0);
        Q r(x);
        for (int i = 0; i < 12; ++i)
        {
            mpz_class a = r.get_num() / r.get_den();
            mpz_class p2 = a * p1 + p0, q2 = a * q1 + q0;
            if (q2 > 20000 || p2 > 2000000) break;
            if (p2.get_d() / q2.get_d() == x)
            {
                out = Q(p2, q2);
                out.canonicalize();
                if (v < 0) out = -out;
                return true;
            }
            p0 = p1; q0 = q1; p1 = p2; q1 = q2;
            Q f = r - Q(a);
            if (f == 0) break;
            r = 1 / f;
        }
        return false;
    }
    static Id piTerm()
    {
        Engine& e = E();
        auto it = e.varByName.find("@pi");
        if (it != e.varByName.end()) return e.vars[it->second].term;
        int v = newVar("@pi", false, VK_PI);
        e.varByName["@pi"] = v;
        e.vars[v].nonneg = e.vars[v].positive = true;
        Id t = e.vars[v].term;
        e.vars[v].axioms.push_back(f_lt(mkConst(Q("3141592653/1000000000")), t));
        e.vars[v].axioms.push_back(f_lt(t, mkConst(Q("3141592654/1000000000"))));
        return t;
    }
    Id t_pi() { return piTerm(); }

    static bool smallFrac(double x, int maxq, Q& out)
    {
        for (int q = 1; q <= maxq; ++q)
        {
            double p = std::round(x * q);
            if (std::fabs(p) > 4000) continue;
            if (std::fabs(p / q - x) <= 4e-16 * std::fabs(x))
            {
                out = Q((long)p, (long)q);
                out.canonicalize();
                return true;
            }
        }
        return false;
    }

    Id t_const_d(double v)
    {
        static std::unordered_map<double, Id> cache;
        auto it = cache.find(v);
        if (it != cache.end()) return it->second;
        Id id;
        Q q;
        if (std::isnan(v) || std::isinf(v)) throw Unsupported("non-finite constant");
        if (niceRational(v, q)) id = mkConst(q);
        else
        {
            double k = v / M_PI;
            if (std::fabs(v) < 1e4 && smallFrac(k, 360, q) && std::fabs(q.get_d() * M_PI - v) <= 2.3e-16 * std::fabs(v))
                id = t_mul(mkConst(q), piTerm());
            else if (std::fabs(v) < 60 && smallFrac(v * v, 64, q) && std::fabs(std::sqrt(q.get_d()) - std::fabs(v)) <= 1.2e-16 * std::fabs(v))
            {
                id = t_sqrt(mkConst(q));
                if (v < 0) id = t_neg(id);
            }
            else id = mkConst(Q(v));
        }
        cache[v] = id;
        return id;
    }
    Id t_const_i(long v) { return mkConst(Q(v)); }
    Id t_const_q(const std::string& s)
    {
        Q q(s);
        q.canonicalize();
        return mkConst(q);
    }
    bool t_is_const(Id a) { return a < E().nodes.size() && E().nodes[a].op == OP_CONST; }
    double t_const_val(Id a) { return E().nodes[a].c.get_d(); }

    Id t_var(const std::string& name, bool isInt)
    {
        Engine& e = E();
        auto it = e.varByName.find(name);
        if (it != e.varByName.end()) return e.vars[it->second].term;
        int v = newVar(name, isInt, VK_INPUT);
        e.varByName[name] = v;
        return e.vars[v].term;
    }
    Id t_fresh(const std::string& prefix, bool isInt)
    {
        Engine& e = E();
        std::string name = prefix + "#" + std::to_string(e.freshN++);
        auto it = e.varByName.find(name);
        if (it != e.varByName.end()) return e.vars[it->second].term;
        int v = newVar(name, isInt, VK_FRESH);
        e.varByName[name] = v;
        return e.vars[v].term;
    }

    static const Q* cv(Id a)
    {
        Engine& e = E();
        return e.nodes[a].op == OP_CONST ? &e.nodes[a].c : nullptr;
    }
    Id t_add(Id a, Id b)
    {
        a = live(a); b = live(b);
        if (a == 0) return b;
        if (b == 0) return a;
        const Q *x = cv(a), *y = cv(b);
        if (x && y) return mkConst(*x + *y);
        if (a > b) std::swap(a, b);
        return mk(OP_ADD, a, b);
    }
    Id t_neg(Id a)
    {
        a = live(a);
        if (const Q* x = cv(a)) return mkConst(-*x);
        if (E().nodes[a].op == OP_NEG) return E().nodes[a].a;
        return mk(OP_NEG, a, 0);
    }
    Id t_sub(Id a, Id b)
    {
        a = live(a); b = live(b);
        if (b == 0) return a;
        if (a == b) return 0;
        const Q *x = cv(a), *y = cv(b);
        if (x && y) return mkConst(*x - *y);
        if (a == 0) return t_neg(b);
        return mk(OP_SUB, a, b);
    }
    Id t_mul(Id a, Id b)
    {
        a = live(a); b = live(b);
        if (a == 0 || b == 0) return 0;
        const Q *x = cv(a), *y = cv(b);
        if (x && y) return mkConst(*x * *y);
        if (x && *x == 1) return b;
        if (y && *y == 1) return a;
        if (a > b) std::swap(a, b);
        return mk(OP_MUL, a, b);
    }

    // ----------------------------------------------------------- polynomials
    static Poly pconst(const Q& q)
    {
        Poly p;
        if (q != 0) p.t[Mono()] = q;
        return p;
    }
    static Poly pvar(int v, int ex = 1)
    {
        Poly p;
        Mono m;
        m.push_back({ v, ex });
        p.t[m] = 1;
        return p;
    }
    static void addTo(Poly& p, const Mono& m, const Q& c)
    {
        if (c == 0) return;
        auto it = p.t.find(m);
        if (it == p.t.end())
        {
            p.t.emplace(m, c);
            if (p.t.size() > cfg.maxPoly) throw TooBig();
        }
        else
        {
            it->second += c;
            if (it->second == 0) p.t.erase(it);
        }
    }
    static Poly padd(const Poly& a, const Poly& b, int s = 1)
    {
        Poly r = a;
        for (auto& k : b.t) addTo(r, k.first, s > 0 ? k.second : Q(-k.second));
        return r;
    }
    static Poly pscale(const Poly& a, const Q& q)
    {
        Poly r;
        if (q == 0) return r;
        for (auto& k : a.t) r.t.emplace_hint(r.t.end(), k.first, k.second * q);
        return r;
    }
    static Mono mmul(const Mono& a, const Mono& b)
    {
        Mono r;
        size_t i = 0, j = 0;
        while (i < a.size() || j < b.size())
        {
            if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
            else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
            else
            {
                int ex = a[i].second + b[j].second;
                if (ex) r.push_back({ a[i].first, ex });
                ++i; ++j;
            }
        }
        return r;
    }
    static Poly pinv(const Poly& p);
    static Poly pmul(const Poly& a, const Poly& b);
    static Poly ppow(const Poly& a, int n)
    {
        Poly r = pconst(1);
        for (int i = 0; i < n; ++i) r = pmul(r, a);
        return r;
    }
    // rewrite s^2 -> arg for square-root variables, r*lt(p) -> 1 - r*(p-lt) for inverses
    static bool reducible(const Mono& m, int& which, int& mode)
    {
        Engine& e = E();
        for (auto& f : m)
        {
            const VarInfo& v = e.vars[f.first];
            if (v.kind == VK_SQRT && v.poly && (f.second >= 2 || f.second < 0)) { which = f.first; mode = 0; return true; }
            if (v.kind == VK_INV)
            {
                if (f.second < 0) { which = f.first; mode = 2; return true; }
                const Mono& lt = v.poly->t.rbegin()->first;
                bool div = true;
                size_t j = 0;
                for (auto& g : lt)
                {
                    while (j < m.size() && m[j].first < g.first) ++j;
                    if (g.second < 0 || j == m.size() || m[j].first != g.first || m[j].second < g.second) { div = false; break; }
                }
                if (div && !lt.empty()) { which = f.first; mode = 1; return true; }
            }
        }
        return false;
    }
    static Poly reduce(Poly p)
    {
        Engine& e = E();
        Poly out;
        int guard = 0;
        while (!p.t.empty())
        {
            auto it = p.t.begin();
            Mono m = it->first;
            Q c = it->second;
            p.t.erase(it);
            int v, mode;
            if (!reducible(m, v, mode)) { addTo(out, m, c); continue; }
            if (++guard > 200000) throw TooBig();
            Mono rest;
            int ex = 0;
            for (auto& f : m)
                if (f.first == v) ex = f.second; else rest.push_back(f);
            Poly base;
            base.t[rest] = c;
            Poly repl;
            if (mode == 0)
            {
                int q = ex >= 0 ? ex / 2 : -((1 - ex) / 2);
                int r = ex - 2 * q;
                Poly arg = *e.vars[v].poly;
                Poly f = q >= 0 ? ppow(arg, q) : ppow(pinv(arg), -q);
                if (r) f = pmul(f, pvar(v));
                repl = pmul(base, f);
            }
            else if (mode == 2)
            {
                repl = pmul(base, ppow(*e.vars[v].poly, -ex));
            }
            else
            {
                const Poly& d = *e.vars[v].poly; // monic
                const Mono& lt = d.t.rbegin()->first;
                Mono inv = lt;
                for (auto& f : inv) f.second = -f.second;
                Mono m2 = mmul(m, inv); // m / lt, still has r^ex
                // r*lt = 1 - r*(d-lt)
                Mono mr1;
                for (auto& f : m2)
                {
                    if (f.first == v) { if (f.second > 1) mr1.push_back({ v, f.second - 1 }); }
                    else mr1.push_back(f);
                }
                addTo(repl, mr1, c);
                for (auto& k : d.t)
                    if (k.first != lt) addTo(repl, mmul(m2, k.first), -c * k.second);
            }
            for (auto& k : repl.t) addTo(p, k.first, k.second);
        }
        return out;
    }
    static Poly pmul(const Poly& a, const Poly& b)
    {
        Poly r;
        if ((double)a.t.size() * b.t.size() > cfg.maxPolyMul) throw TooBig();
        for (auto& x : a.t)
            for (auto& y : b.t)
                addTo(r, mmul(x.first, y.first), x.second * y.second);
        bool need = false;
        int w, md;
        for (auto& k : r.t)
            if (reducible(k.first, w, md)) { need = true; break; }
        return need ? reduce(r) : r;
    }
    static std::string pkey(const Poly& p)
    {
        std::string s;
        for (auto& k : p.t)
        {
            s += k.second.get_str();
            for (auto& f : k.first)
            {
                s += "*";
                s += std::to_string(f.first);
                s += "^";
                s += std::to_string(f.second);
            }
            s += "+";
        }
        return s;
    }
    // strip the monomial content and leading coefficient: p = c * m * q, q monic, no common monomial
    static void split(const Poly& p, Q& c, Mono& m, Poly& q)
    {
        // common monomial: for each var, the minimal exponent over all monomials
        std::map<int, int> mn;
        bool first = true;
        for (auto& k : p.t)
        {
            std::map<int, int> here;
            for (auto& f : k.first) here[f.first] = f.second;
            if (first) { mn = here; first = false; }
            else
            {
                for (auto it = mn.begin(); it != mn.end(); ++it)
                {
                    auto h = here.find(it->first);
                    int ex = h == here.end() ? 0 : h->second;
                    it->second = std::min(it->second, ex);
                }
                for (auto& h : here)
                    if (!mn.count(h.first)) mn[h.first] = std::min(0, h.second);
            }
        }
        m.clear();
        for (auto& k : mn)
            if (k.second) m.push_back(k);
        Mono inv = m;
        for (auto& f : inv) f.second = -f.second;
        q = Poly();
        for (auto& k : p.t) q.t[mmul(k.first, inv)] = k.second;
        c = q.t.rbegin()->second;
        q = pscale(q, 1 / c);
    }
    static Poly pinv(const Poly& p)
    {
        Engine& e = E();
        if (p.zero()) throw Unsupported("division by the zero polynomial");
        if (p.isConst()) return pconst(1 / p.constVal());
        Q c;
        Mono m;
        Poly q;
        split(p, c, m, q);
        Poly r = pconst(1 / c);
        for (auto& f : m)
        {
            Poly v;
            Mono mm;
            mm.push_back({ f.first, -f.second });
            v.t[mm] = 1;
            int w, md;
            r = pmul(r, reducible(mm, w, md) ? reduce(v) : v);
        }
        if (q.isConst()) return r;
        std::string key = "inv:" + pkey(q);
        auto it = e.algByKey.find(key);
        int v;
        if (it == e.algByKey.end())
        {
            v = newVar("@inv" + std::to_string(e.vars.size()), false, VK_INV);
            e.vars[v].poly = std::make_shared<Poly>(q);
            e.algByKey[key] = v;
        }
        else v = it->second;
        return pmul(r, pvar(v));
    }
    static PolyP nf(Id a);
    static PolyP nfCompute(Id a)
    {
        Engine& e = E();
        // iterative post-order to avoid deep recursion
        std::vector<Id> st { a };
        while (!st.empty())
        {
            Id x = st.back();
            if (e.nfc[x]) { st.pop_back(); continue; }
            Op op = e.nodes[x].op;
            Id p = e.nodes[x].a, q = e.nodes[x].b;
            if (op == OP_VAR)
            {
                e.nfc[x] = std::make_shared<Poly>(pvar(e.nodes[x].var));
                st.pop_back();
                continue;
            }
            bool ready = true;
            if (!e.nfc[p]) { st.push_back(p); ready = false; }
            if (op != OP_NEG && !e.nfc[q]) { st.push_back(q); ready = false; }
            if (!ready) continue;
            Poly r;
            if (op == OP_ADD) r = padd(*e.nfc[p], *e.nfc[q]);
            else if (op == OP_SUB) r = padd(*e.nfc[p], *e.nfc[q], -1);
            else if (op == OP_NEG) r = pscale(*e.nfc[p], Q(-1));
            else if (op == OP_MUL) r = pmul(*e.nfc[p], *e.nfc[q]);
            else if (op == OP_DIV) r = pmul(*e.nfc[p], pinv(*e.nfc[q]));
            e.nfc[x] = std::make_shared<Poly>(std::move(r));
            st.pop_back();
        }
        return e.nfc[a];
    }
    static PolyP nf(Id a)
    {
        if (E().nfc[a]) return E().nfc[a];
        return nfCompute(a);
    }
    static PolyP nfTry(Id a)
    {
        try { return nf(a); }
        catch (TooBig&) { return nullptr; }
    }
    static int topInv(const Poly& p)
    {
        int best = -1;
        for (auto& k : p.t)
            for (auto& f : k.first)
                if (E().vars[f.first].kind == VK_INV) best = std::max(best, f.first);
        return best;
    }
    // multiply by all denominators; returns numerator polynomial
    static Poly clearInv(Poly p, std::vector<std::pair<int, int>>* dens = nullptr)
    {
        int v;
        while ((v = topInv(p)) >= 0)
        {
            int mx = 0;
            for (auto& k : p.t)
                for (auto& f : k.first)
                    if (f.first == v) mx = std::max(mx, f.second);
            if (dens) dens->push_back({ v, mx });
            std::vector<Poly> co(mx + 1);
            for (auto& k : p.t)
            {
                Mono r;
                int ex = 0;
                for (auto& f : k.first)
                    if (f.first == v) ex = f.second; else r.push_back(f);
                co[ex].t[r] = k.second;
            }
            const Poly d = *E().vars[v].poly;
            Poly acc;
            Poly pw = pconst(1);
            for (int i = mx; i >= 0; --i)
            {
                acc = padd(acc, pmul(co[i], pw));
                if (i) pw = pmul(pw, d);
            }
            p = acc;
        }
        return p;
    }
    static int identicallyZero(Id t) // 1 yes, 0 no, -1 gave up
    {
        try
        {
            PolyP p = nf(t);
            if (p->zero()) return 1;
            if (topInv(*p) < 0) return 0;
            return clearInv(*p).zero() ? 1 : 0;
        }
        catch (TooBig&)
        {
            return -1;
        }
    }
    // sign by inspection.  A mask of possible signs: 1 negative, 2 zero, 4 positive.
    // Facts about variables and (content-free, monic) polynomials are collected
    // from the path condition and are scoped to the path.
    static int signPoly(const Poly& p, int depth = 0);
    // p = c*q + k0 with q monic and without constant term
    static void constSplit(const Poly& p, Poly& q, Q& c, Q& k0)
    {
        k0 = 0;
        auto z = p.t.find(Mono());
        if (z != p.t.end()) k0 = z->second;
        c = p.t.rbegin()->first.empty() ? Q(1) : p.t.rbegin()->second;
        for (auto& k : p.t) if (!k.first.empty()) q.t[k.first] = k.second / c;
    }
    static int mulMask(int a, int b)
    {
        int r = 0;
        if ((a & 2) || (b & 2)) r |= 2;
        if (((a & 4) && (b & 4)) || ((a & 1) && (b & 1))) r |= 4;
        if (((a & 4) && (b & 1)) || ((a & 1) && (b & 4))) r |= 1;
        return r;
    }
    static int signVar(int v, int depth)
    {
        Engine& e = E();
        const VarInfo& i = e.vars[v];
        int m = 7;
        if (i.positive) m = 4;
        else if (i.nonneg) m = 6;
        auto it = e.signV.find(v);
        if (it != e.signV.end()) m &= it->second;
        if (depth < 6)
        {
            if (i.kind == VK_INV) m &= signPoly(*i.poly, depth + 1) & 5;
            if (i.kind == VK_SQRT && i.poly && (m & 2) && !(signPoly(*i.poly, depth + 1) & 2)) m &= 5;
        }
        return m ? m : 7;
    }
    static int signMono(const Mono& m, const Q& c, int depth)
    {
        int r = c > 0 ? 4 : c < 0 ? 1 : 2;
        for (auto& f : m)
        {
            int s = signVar(f.first, depth);
            if (f.second % 2 == 0) s = (s & 2) | ((s & 5) ? 4 : 0);
            if (f.second < 0) s &= 5;
            r = mulMask(r, s);
        }
        return r;
    }
    static int signPoly(const Poly& p, int depth)
    {
        Engine& e = E();
        if (p.zero()) return 2;
        if (p.isConst()) return p.constVal() > 0 ? 4 : 1;
        if (p.t.size() == 1) return signMono(p.t.begin()->first, p.t.begin()->second, depth);
        int r = 7;
        bool allNonneg = true, allNonpos = true, strict = false;
        for (auto& k : p.t)
        {
            int s = signMono(k.first, k.second, depth);
            if (s & 1) allNonneg = false;
            if (s & 4) allNonpos = false;
            if (!(s & 2)) strict = true;
            if (!allNonneg && !allNonpos) break;
        }
        if (allNonneg) r &= strict ? 4 : 6;
        else if (allNonpos) r &= strict ? 1 : 3;
        if (!e.bnd.empty() && (r & (r - 1)))
        {
            Poly q; Q c, k0;
            constSplit(p, q, c, k0);
            auto it = e.bnd.find(pkey(q));
            if (it != e.bnd.end())
            {
                const Engine::Bnd& b = it->second;
                Q t = -k0 / c; // p > 0 <=> q > t (c > 0)
                int x = 7;
                if (b.hasLo && (b.lo > t || (b.lo == t && b.loStrict))) x &= 4;
                else if (b.hasLo && b.lo == t) x &= 6;
                if (b.hasHi && (b.hi < t || (b.hi == t && b.hiStrict))) x &= 1;
                else if (b.hasHi && b.hi == t) x &= 3;
                if (c < 0) x = (x & 2) | ((x & 1) ? 4 : 0) | ((x & 4) ? 1 : 0);
                if (x & r) r &= x;
            }
        }
        if (!e.signP.empty() && (r & (r - 1)))
        {
            Q c; Mono m; Poly q;
            split(p, c, m, q);
            auto it = e.signP.find(pkey(q));
            int sq = it == e.signP.end() ? 7 : it->second;
            if (m.size() && depth < 6) { int s2 = 7; if (q.t.size() > 1) { bool nn = true, np = true, st = false; for (auto& k : q.t) { int s = signMono(k.first, k.second, depth); if (s & 1) nn = false; if (s & 4) np = false; if (!(s & 2)) st = true; } if (nn) s2 = st ? 4 : 6; else if (np) s2 = st ? 1 : 3; } sq &= s2; }
            if (sq == 0) sq = 7;
            int x = mulMask(signMono(m, c, depth), sq);
            if (x & r) r &= x;
        }
        return r;
    }
    // record that p has one of the signs in mask
    static void noteSign(const Poly& p, int mask)
    {
        Engine& e = E();
        if (p.zero() || p.isConst()) return;
        if (mask == 1 || mask == 3 || mask == 4 || mask == 6 || mask == 2)
        {
            Poly q; Q c, k0;
            constSplit(p, q, c, k0);
            if (!q.zero())
            {
                Q t = -k0 / c;
                bool up = mask == 2 || ((mask & 4) ? c > 0 : c < 0), dn = mask == 2 || !up, strict = !(mask & 2);
                Engine::Bnd& b = e.bnd[pkey(q)];
                if (up && (!b.hasLo || t > b.lo || (t == b.lo && strict))) { b.hasLo = true; b.lo = t; b.loStrict = strict; }
                if (dn && (!b.hasHi || t < b.hi || (t == b.hi && strict))) { b.hasHi = true; b.hi = t; b.hiStrict = strict; }
            }
        }
        Q c; Mono m; Poly q;
        split(p, c, m, q);
        if (!(mask & 2))
        {
            for (auto& f : m)
                if (f.second > 0)
                {
                    int& s = e.signV.emplace(f.first, 7).first->second;
                    s &= 5;
                    const VarInfo& i = e.vars[f.first];
                    if (i.kind == VK_SQRT && i.arg2)
                    {
                        PolyP ap = nfTry(i.arg2);
                        if (ap && !ap->isConst()) noteSign(*ap, 5);
                    }
                    else if (i.kind == VK_SQRT && i.poly) noteSign(*i.poly, 4);
                }
            if (!q.isConst()) { int& s = e.signP.emplace(pkey(q), 7).first->second; s &= 5; }
        }
        // a definite sign carried by a single term: p > 0 and every other term is <= 0
        if ((mask == 4 || mask == 1) && p.t.size() >= 2 && p.t.size() <= 8)
        {
            const Mono* only = nullptr; Q oc;
            int n = 0;
            for (auto& k : p.t)
                if (signMono(k.first, k.second, 0) & mask) { ++n; only = &k.first; oc = k.second; }
            if (n == 1 && !only->empty())
            {
                Mono mm = *only;
                Poly one;
                one.t[mm] = oc;
                noteSign(one, mask);
            }
        }
        auto quot = [](int mk, int s) -> int { // possible signs of x with s*x in mk, s definite nonzero
            if (s == 4) return mk;
            if (s == 1) return (mk & 2) | ((mk & 1) ? 4 : 0) | ((mk & 4) ? 1 : 0);
            return 7;
        };
        if (!q.isConst())
        {
            int s = signMono(m, c, 0);
            if (s == 4 || s == 1) { int& t = e.signP.emplace(pkey(q), 7).first->second; int n = t & quot(mask, s); if (n) t = n; }
        }
        int un = -1, cnt = 0;
        for (auto& f : m)
            if (f.second % 2) { int s = signVar(f.first, 0); if (s != 4 && s != 1) { un = f.first; ++cnt; } }
        if (cnt == 1)
        {
            Mono r;
            bool ok = true;
            for (auto& f : m)
            {
                if (f.first == un) continue;
                r.push_back(f);
            }
            int s = mulMask(signMono(r, c, 0), q.isConst() ? 4 : signPoly(q));
            if ((s == 4 || s == 1) && ok) { int& t = e.signV.emplace(un, 7).first->second; int n = t & quot(mask, s); if (n) t = n; }
        }
        else if (m.empty() && q.t.size() == 2 && q.isConst() == false)
        {
            // x - k >= 0 / > 0 with a constant: sign of x when it follows
            Q k0 = 0; int v = -1; bool lin = true; Q kc = 1;
            for (auto& k : q.t)
            {
                if (k.first.empty()) k0 = k.second;
                else if (k.first.size() == 1 && k.first[0].second == 1) { v = k.first[0].first; kc = k.second; }
                else lin = false;
            }
            auto it = e.signP.find(pkey(q));
            if (lin && v >= 0 && k0 != 0 && it != e.signP.end())
            {
                int s = it->second; // sign of x + k0 (monic)
                int& t = e.signV.emplace(v, 7).first->second;
                if (!(s & 1) && k0 < 0) { if (t & 4) t &= 4; }
                if (!(s & 4) && k0 > 0) { if (t & 1) t &= 1; }
            }
        }
    }
    static bool monoNonneg(const Mono& m) { return !(signMono(m, 1, 0) & 1); }
    // t >= 0 because it is built from squares, nonnegative constants and nonnegative atoms
    static bool dagNonneg(Id t, int depth = 0)
    {
        Engine& e = E();
        if (depth > 60) return false;
        const Node& n = e.nodes[t];
        switch (n.op)
        {
        case OP_CONST: return n.c >= 0;
        case OP_VAR: return !(signVar(n.var, 0) & 1);
        case OP_ADD: return dagNonneg(n.a, depth + 1) && dagNonneg(n.b, depth + 1);
        case OP_MUL: return n.a == n.b || (dagNonneg(n.a, depth + 1) && dagNonneg(n.b, depth + 1));
        case OP_DIV: return n.a == n.b || (dagNonneg(n.a, depth + 1) && dagNonneg(n.b, depth + 1));
        default: return false;
        }
    }
    static bool polyNonneg(const Poly& p) { return !(signPoly(p) & 1); }
    static bool nonzeroByInspection(const Poly& p) { return !(signPoly(p) & 2); }
    // sign of a term through its numerator / denominators
    static int signTerm(Id t)
    {
        try
        {
            PolyP p = nf(t);
            int r = signPoly(*p);
            if (!(r & (r - 1))) return r;
            if (topInv(*p) < 0) return r;
            std::vector<std::pair<int, int>> dens;
            Poly n = clearInv(*p, &dens);
            int d = 4;
            for (auto& k : dens)
            {
                int s = signPoly(*E().vars[k.first].poly) & 5;
                if (k.second % 2 == 0) s = 4;
                d = mulMask(d, s);
            }
            int q = mulMask(signPoly(n), d);
            return (q & r) ? (q & r) : r;
        }
        catch (TooBig&) { return 7; }
    }

    // --------------------------------------------------------------- formulas
    static Fid mkAtom(Form::K k, Id t)
    {
        Engine& e = E();
        PolyP p = nfTry(t);
        std::string key;
        Poly q;
        if (p)
        {
            if (p->isConst())
            {
                Q c = p->constVal();
                bool r = k == Form::LT ? c < 0 : k == Form::LE ? c <= 0 : k == Form::EQ ? c == 0 : c != 0;
                return r ? f_true() : f_false();
            }
            Q lc = p->t.rbegin()->second;
            Q s = abs(lc);
            if ((k == Form::EQ || k == Form::NE) && lc < 0) s = -s;
            q = s == 1 ? *p : pscale(*p, 1 / s);
            key = std::to_string((int)k) + ":" + pkey(q);
        }
        else key = std::to_string((int)k) + ":#" + std::to_string(t);
        auto it = e.atomByKey.find(key);
        if (it != e.atomByKey.end()) return it->second;
        Fid f = (Fid)e.forms.size();
        e.forms.push_back({ k, t, 0, 0 });
        e.atomByKey[key] = f;
        return f;
    }
    Fid f_true() { return 0; }
    Fid f_false() { return 1; }
    static int sentinel(Id a);
    // comparisons with numeric_limits<Real>::max()/lowest() treat them as +-infinity
    static bool sentinels(Id& a, Id& b, int& r)
    {
        a = live(a); b = live(b);
        int sa = sentinel(a), sb = sentinel(b);
        if (!sa && !sb) return false;
        r = sa < sb ? -1 : sa > sb ? 1 : 0;
        return true;
    }
    Fid f_lt(Id a, Id b) { int r; if (sentinels(a, b, r)) return r < 0 ? 0 : 1; return mkAtom(Form::LT, t_sub(a, b)); }
    Fid f_le(Id a, Id b) { int r; if (sentinels(a, b, r)) return r <= 0 ? 0 : 1; return mkAtom(Form::LE, t_sub(a, b)); }
    Fid f_eq(Id a, Id b) { int r; if (sentinels(a, b, r)) return r == 0 ? 0 : 1; return mkAtom(Form::EQ, t_sub(a, b)); }
    static Fid mkConn(Form::K k, Fid a, Fid b)
    {
        Engine& e = E();
        if (a > b) std::swap(a, b);
        auto key = std::make_pair((int)k, std::make_pair(a, b));
        auto it = e.conn.find(key);
        if (it != e.conn.end()) return it->second;
        Fid f = (Fid)e.forms.size();
        e.forms.push_back({ k, 0, a, b });
        e.conn[key] = f;
        return f;
    }
    Fid f_and(Fid a, Fid b)
    {
        if (a == 1 || b == 1) return 1;
        if (a == 0) return b;
        if (b == 0 || a == b) return a;
        return mkConn(Form::AND, a, b);
    }
    Fid f_or(Fid a, Fid b)
    {
        if (a == 0 || b == 0) return 0;
        if (a == 1) return b;
        if (b == 1 || a == b) return a;
        return mkConn(Form::OR, a, b);
    }
    Fid f_not(Fid a)
    {
        Form f = E().forms[a];
        switch (f.k)
        {
        case Form::T: return 1;
        case Form::F: return 0;
        case Form::LT: return mkAtom(Form::LE, t_neg(f.t));
        case Form::LE: return mkAtom(Form::LT, t_neg(f.t));
        case Form::EQ: return mkAtom(Form::NE, f.t);
        case Form::NE: return mkAtom(Form::EQ, f.t);
        case Form::AND: return f_or(f_not(f.a), f_not(f.b));
        case Form::OR: return f_and(f_not(f.a), f_not(f.b));
        }
        return 0;
    }

    // --------------------------------------------------------------------- z3
    struct Z {
        z3::context c;
        std::vector<Z3_ast> termCache;
        std::vector<z3::expr> keep;
        std::map<int, unsigned> varConst;
        std::unordered_map<Id, unsigned> tc;
        std::unordered_map<Fid, unsigned> fc;
    };
    static Z& z()
    {
        static Z* p = new Z();
        return *p;
    }
    static z3::expr zq(const Q& q)
    {
        return z().c.real_val(q.get_str().c_str());
    }
    static void collectVars(Id t, std::set<int>& out);
    static z3::expr zvar(int v)
    {
        Z& s = z();
        auto it = s.varConst.find(v);
        if (it != s.varConst.end()) return s.keep[it->second];
        const VarInfo& i = E().vars[v];
        std::string nm = "v" + std::to_string(v);
        z3::expr x = i.isInt ? z3::to_real(s.c.int_const(nm.c_str())) : s.c.real_const(nm.c_str());
        s.keep.push_back(x);
        s.varConst[v] = (unsigned)s.keep.size() - 1;
        return x;
    }
    static z3::expr zterm(Id t)
    {
        Z& s = z();
        Engine& e = E();
        std::vector<Id> st { t };
        while (!st.empty())
        {
            Id x = st.back();
            if (s.tc.count(x)) { st.pop_back(); continue; }
            const Node& n = e.nodes[x];
            if (n.op == OP_CONST) { s.keep.push_back(zq(n.c)); s.tc[x] = s.keep.size() - 1; st.pop_back(); continue; }
            if (n.op == OP_VAR) { z3::expr v = zvar(n.var); s.keep.push_back(v); s.tc[x] = s.keep.size() - 1; st.pop_back(); continue; }
            bool ready = true;
            if (!s.tc.count(n.a)) { st.push_back(n.a); ready = false; }
            if (n.op != OP_NEG && !s.tc.count(n.b)) { st.push_back(n.b); ready = false; }
            if (!ready) continue;
            z3::expr a = s.keep[s.tc[n.a]];
            z3::expr r = a;
            if (n.op == OP_NEG) r = -a;
            else
            {
                z3::expr b = s.keep[s.tc[n.b]];
                if (n.op == OP_ADD) r = a + b;
                else if (n.op == OP_SUB) r = a - b;
                else if (n.op == OP_MUL) r = a * b;
                else r = a / b;
            }
            s.keep.push_back(r);
            s.tc[x] = s.keep.size() - 1;
            st.pop_back();
        }
        return s.keep[s.tc[t]];
    }
    static z3::expr zpoly(const Poly& p)
    {
        Z& s = z();
        if (p.zero()) return s.c.real_val(0);
        z3::expr_vector sum(s.c);
        for (auto& k : p.t)
        {
            z3::expr m = zq(k.second);
            bool one = k.second == 1 && !k.first.empty();
            bool started = !one;
            z3::expr den = s.c.real_val(1);
            bool hasDen = false;
            for (auto& f : k.first)
            {
                z3::expr v = zvar(f.first);
                int n = std::abs(f.second);
                for (int i = 0; i < n; ++i)
                {
                    if (f.second > 0) { m = started ? m * v : v; started = true; }
                    else { den = hasDen ? den * v : v; hasDen = true; }
                }
            }
            if (!started) m = s.c.real_val(1);
            sum.push_back(hasDen ? m / den : m);
        }
        return z3::sum(sum);
    }
    static int zMode = 0; // 0: normal-form atoms when small, 1: original term dags
    static z3::expr zform(Fid f, std::set<int>& vs)
    {
        Z& s = z();
        Engine& e = E();
        const Form fm = e.forms[f];
        switch (fm.k)
        {
        case Form::T: return s.c.bool_val(true);
        case Form::F: return s.c.bool_val(false);
        case Form::AND: return zform(fm.a, vs) && zform(fm.b, vs);
        case Form::OR: return zform(fm.a, vs) || zform(fm.b, vs);
        default: break;
        }
        PolyP p = zMode == 0 ? nfTry(fm.t) : nullptr;
        z3::expr t(s.c);
        if (p && p->t.size() <= 60)
        {
            t = zpoly(*p);
            for (auto& k : p->t)
                for (auto& g : k.first) vs.insert(g.first);
        }
        else
        {
            t = zterm(fm.t);
            collectVars(fm.t, vs);
        }
        z3::expr zero = s.c.real_val(0);
        if (fm.k == Form::LT) return t < zero;
        if (fm.k == Form::LE) return t <= zero;
        if (fm.k == Form::EQ) return t == zero;
        return t != zero;
    }
    static void collectVars(Id t, std::set<int>& out)
    {
        Engine& e = E();
        std::set<Id> seen;
        std::vector<Id> st { t };
        while (!st.empty())
        {
            Id x = st.back();
            st.pop_back();
            if (!seen.insert(x).second) continue;
            const Node& n = e.nodes[x];
            if (n.op == OP_CONST) continue;
            if (n.op == OP_VAR) { out.insert(n.var); continue; }
            st.push_back(n.a);
            if (n.op != OP_NEG) st.push_back(n.b);
        }
    }
    static void formVars(Fid f, std::set<int>& out)
    {
        const Form fm = E().forms[f];
        if (fm.k == Form::T || fm.k == Form::F) return;
        if (fm.k == Form::AND || fm.k == Form::OR) { formVars(fm.a, out); formVars(fm.b, out); return; }
        collectVars(fm.t, out);
    }
    // defining constraints of sqrt / inverse / floor / function variables
    static void closure(std::set<int> vs, std::vector<z3::expr>& cs, std::set<int>& all)
    {
        Engine& e = E();
        Z& s = z();
        std::vector<int> st(vs.begin(), vs.end());
        while (!st.empty())
        {
            int v = st.back();
            st.pop_back();
            if (!all.insert(v).second) continue;
            const VarInfo& i = e.vars[v];
            std::set<int> more;
            z3::expr x = zvar(v);
            if (i.kind == VK_SQRT && i.arg2)
            {
                z3::expr y = zterm(i.arg2);
                cs.push_back(x >= y && x >= -y && (x == y || x == -y));
                collectVars(i.arg2, more);
            }
            else if (i.kind == VK_SQRT)
            {
                cs.push_back(x >= 0);
                if (i.poly) { cs.push_back(x * x == zpoly(*i.poly)); for (auto& k : i.poly->t) for (auto& g : k.first) more.insert(g.first); }
                else { cs.push_back(x * x == zterm(i.arg)); collectVars(i.arg, more); }
            }
            else if (i.kind == VK_INV)
            {
                cs.push_back(x * zpoly(*i.poly) == 1);
                for (auto& k : i.poly->t) for (auto& g : k.first) more.insert(g.first);
            }
            else if (i.nonneg) cs.push_back(i.positive ? x > s.c.real_val(0) : x >= s.c.real_val(0));
            for (size_t a = 0; a < e.vars[v].axioms.size(); ++a)
            {
                std::set<int> w;
                cs.push_back(zform(e.vars[v].axioms[a], w));
                more.insert(w.begin(), w.end());
            }
            for (int w : more) st.push_back(w);
        }
    }

    // Check satisfiability of pc + extra.  1 sat, 0 unsat, -1 unknown
    static std::string lastReason;
    static int runCvc5(const std::string& smt, double tmo)
    {
        char fn[] = "/tmp/ecvXXXXXX";
        int fd = mkstemp(fn);
        if (fd < 0) return -1;
        std::string s = "(set-logic ALL)\n" + smt + "(check-sat)\n";
        if (write(fd, s.data(), s.size()) < 0) { }
        close(fd);
        char cmd[256];
        snprintf(cmd, sizeof cmd, "timeout %d cvc5 --lang smt2 --tlimit=%d %s 2>/dev/null", (int)tmo + 2, (int)(tmo * 1000), fn);
        FILE* p = popen(cmd, "r");
        char buf[128] = "";
        if (p) { if (!fgets(buf, sizeof buf, p)) buf[0] = 0; pclose(p); }
        unlink(fn);
        if (!strncmp(buf, "unsat", 5)) return 0;
        if (!strncmp(buf, "sat", 3)) return 1;
        return -1;
    }
    static std::string fstr(Fid f)
    {
        const Form fm = E().forms[f];
        switch (fm.k)
        {
        case Form::T: return "true";
        case Form::F: return "false";
        case Form::AND: return "(" + fstr(fm.a) + " && " + fstr(fm.b) + ")";
        case Form::OR: return "(" + fstr(fm.a) + " || " + fstr(fm.b) + ")";
        case Form::LT: return t_str(fm.t) + " < 0";
        case Form::LE: return t_str(fm.t) + " <= 0";
        case Form::EQ: return t_str(fm.t) + " = 0";
        case Form::NE: return t_str(fm.t) + " != 0";
        }
        return "?";
    }
    static bool usesInt(const std::set<int>& vs)
    {
        for (int v : vs) if (E().vars[v].isInt) return true;
        return false;
    }
    static int solve(const std::vector<Fid>& fs, double tmo, int strat, std::map<std::string, double>* model, std::string* backend, const std::vector<int>* wanted = nullptr)
    {
        Z& s = z();
        double t0 = now();
        zMode = strat & 1;
        std::set<int> vs, all;
        std::vector<z3::expr> cs;
        for (Fid f : fs) cs.push_back(zform(f, vs));
        if (wanted) vs.insert(wanted->begin(), wanted->end());
        closure(vs, cs, all);
        int res = -1;
        try
        {
            bool ints = usesInt(all);
            if (strat & 4)
            {
                z3::solver so(s.c);
                for (auto& x : cs) so.add(x);
                std::string smt = so.to_smt2();
                size_t p = smt.rfind("(check-sat)");
                if (p != std::string::npos) smt.resize(p);
                res = runCvc5(smt, tmo);
                if (backend) *backend = "cvc5";
            }
            else
            {
                z3::solver so = (!ints && !(strat & 2)) ? z3::tactic(s.c, "qfnra-nlsat").mk_solver() : z3::solver(s.c);
                z3::params pr(s.c);
                pr.set("timeout", (unsigned)(tmo * 1000));
                so.set(pr);
                for (auto& x : cs) so.add(x);
                z3::check_result r = so.check();
                res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
                if (res < 0) lastReason = so.reason_unknown();
                if (backend) *backend = ints ? "z3" : (strat & 2) ? "z3" : "z3-nlsat";
                if (res == 1 && model)
                {
                    z3::model m = so.get_model();
                    for (int v : all)
                    {
                        const VarInfo& i = E().vars[v];
                        z3::expr val = m.eval(zvar(v), true);
                        std::string d;
                        double x = 0;
                        if (val.is_numeral()) x = strtod(val.get_decimal_string(25).c_str(), nullptr);
                        else if (val.is_algebraic()) x = strtod(val.get_decimal_string(25).c_str(), nullptr);
                        (*model)[i.name] = x;
                    }
                }
            }
        }
        catch (z3::exception& ex)
        {
            lastReason = ex.msg();
            res = -1;
        }
        stats.solverTime += now() - t0;
        stats.solverCalls++;
        if (now() - t0 > 0.5 && getenv("ECV_SLOW"))
        {
            fprintf(stderr, "slow %.2fs res=%d strat=%d vars=%zu :", now() - t0, res, strat, all.size());
            for (Fid f : fs) fprintf(stderr, " [%s]", fstr(f).c_str());
            fprintf(stderr, "\n");
        }
        return res;
    }

    // constraints of the pc connected (by shared variables) to a set of variables
    static std::vector<Fid> relevant(const std::vector<Fid>& pc, Fid goal)
    {
        Engine& e = E();
        std::vector<std::set<int>> vs(pc.size());
        auto full = [&](Fid f) {
            std::set<int> a, b;
            formVars(f, a);
            std::vector<int> st(a.begin(), a.end());
            while (!st.empty())
            {
                int v = st.back();
                st.pop_back();
                if (!b.insert(v).second) continue;
                const VarInfo& i = e.vars[v];
                std::set<int> w;
                if (i.kind == VK_SQRT || i.kind == VK_FLOOR) collectVars(i.arg, w);
                for (Fid ax : i.axioms) formVars(ax, w);
                for (int x : w) st.push_back(x);
            }
            b.erase(-1);
            auto it = e.varByName.find("@pi");
            if (it != e.varByName.end()) b.erase(it->second);
            return b;
        };
        for (size_t i = 0; i < pc.size(); ++i) vs[i] = full(pc[i]);
        std::set<int> cur = full(goal);
        std::vector<char> in(pc.size(), 0);
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (size_t i = 0; i < pc.size(); ++i)
            {
                if (in[i]) continue;
                bool hit = false;
                for (int v : vs[i]) if (cur.count(v)) { hit = true; break; }
                if (hit) { in[i] = 1; cur.insert(vs[i].begin(), vs[i].end()); ch = true; }
            }
        }
        std::vector<Fid> out;
        for (size_t i = 0; i < pc.size(); ++i) if (in[i]) out.push_back(pc[i]);
        return out;
    }

    // ----------------------------------------------------------- exploration
    static void assumeF(Fid f)
    {
        Engine& e = E();
        const Form fm = e.forms[f];
        if (fm.k == Form::T) return;
        if (fm.k == Form::AND) { assumeF(fm.a); assumeF(fm.b); return; }
        e.pc.push_back(f);
        if (fm.k == Form::OR) return;
        int mask = fm.k == Form::NE ? 5 : fm.k == Form::LT ? 1 : fm.k == Form::LE ? 3 : 2;
        PolyP p = nfTry(fm.t);
        if (!p || p->isConst()) return;
        noteSign(*p, mask);
        if (topInv(*p) >= 0)
        {
            try
            {
                std::vector<std::pair<int, int>> dens;
                Poly n = clearInv(*p, &dens);
                int d = 4;
                for (auto& k : dens)
                {
                    int s = signPoly(*e.vars[k.first].poly) & 5;
                    if (k.second % 2 == 0) s = 4;
                    d = mulMask(d, s);
                }
                if (d == 4) noteSign(n, mask);
                else if (d == 1) noteSign(n, (mask & 2) | ((mask & 1) ? 4 : 0) | ((mask & 4) ? 1 : 0));
                else if (mask == 5 || mask == 2) noteSign(n, mask);
            }
            catch (TooBig&) { }
        }
    }
    void assume(Fid f)
    {
        if (f == 1) throw Infeasible();
        assumeF(f);
    }
    // a sum of squares is not negative: records the sign of its normal form
    void squaresNonneg(const std::vector<Id>& xs)
    {
        Engine& e = E();
        Id t = 0;
        for (Id x : xs) t = t_add(t, t_mul(live(x), live(x)));
        PolyP p = nfTry(t);
        if (!p || p->isConst()) return;
        noteSign(*p, 6);
        if (topInv(*p) < 0) return;
        try
        {
            std::vector<std::pair<int, int>> dens;
            Poly n = clearInv(*p, &dens);
            int d = 4;
            for (auto& k : dens) if (k.second % 2) d = mulMask(d, signPoly(*e.vars[k.first].poly) & 5);
            if (d == 4) noteSign(n, 6);
            else if (d == 1) noteSign(n, 3);
        }
        catch (TooBig&) { }
    }
    static bool inPc(Fid f)
    {
        for (Fid g : E().pc) if (g == f) return true;
        return false;
    }
    static int feasible(Fid f)
    {
        if (f == 0) return 1;
        if (f == 1) return 0;
        if (inPc(f)) return 1;
        if (inPc(f_not(f))) return 0;
        // inspection
        const Form fm = E().forms[f];
        if (fm.k == Form::LT || fm.k == Form::EQ || fm.k == Form::LE || fm.k == Form::NE)
        {
            if (fm.k == Form::LT && dagNonneg(fm.t)) return 0;
            int sg = signTerm(fm.t);
            int ok = fm.k == Form::NE ? 5 : fm.k == Form::LT ? 1 : fm.k == Form::LE ? 3 : 2;
            if (!(sg & ok)) return 0;
            if (!(sg & ~ok)) return 1;
        }
        auto ck = std::make_pair(E().pc, f);
        auto ci = E().feasCache.find(ck);
        if (ci != E().feasCache.end()) return ci->second;
        std::vector<Fid> fs = relevant(E().pc, f);
        fs.push_back(f);
        std::string be;
        int r = solve(fs, cfg.branchTimeout, 0, nullptr, &be);
        if (r < 0) r = solve(fs, cfg.branchTimeout * 0.5, 2, nullptr, &be);
        E().feasCache[ck] = r;
        return r;
    }
    bool decide(Fid f)
    {
        Engine& e = E();
        if (f == 0) return true;
        if (f == 1) return false;
        if (!e.active) throw Unsupported("symbolic branch outside a contract");
        Fid nf_ = f_not(f);
        if (e.pos < e.prefix.size())
        {
            char r = e.prefix[e.pos++]; // 1/0 chosen, 3/2 implied
            e.trace.push_back(r);
            bool b = (r & 1) != 0;
            if (r < 2) assumeF(b ? f : nf_);
            return b;
        }
        if (now() > cfg.deadline) throw Unsupported("time budget");
        if (e.trace.size() > cfg.maxDepth) throw Unsupported("path depth limit (loop without a decided bound)");
        int a = feasible(f), b = a == 0 ? 1 : feasible(nf_);
        if (a == 0 || b == 0)
        {
            e.trace.push_back(a == 0 ? 2 : 3);
            e.prefix = e.trace;
            e.pos = e.trace.size();
            return a != 0;
        }
        std::vector<char> alt = e.trace;
        alt.push_back(0);
        e.todo.push_back(alt);
        e.trace.push_back(1);
        e.prefix = e.trace;
        e.pos = e.trace.size();
        assumeF(f);
        return true;
    }
    long concretize(Id a)
    {
        a = live(a);
        Engine& e = E();
        for (int tries = 0; tries < 200; ++tries)
        {
            PolyP p = nfTry(a);
            if (p && p->isConst())
            {
                Q c = p->constVal();
                mpz_class fl;
                mpz_fdiv_q(fl.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t());
                return fl.get_si();
            }
            // c + s * floor(x) with integer c and s = +-1: decide on x itself
            Id on = a;
            Q c0 = 0, sg = 1;
            if (p && p->t.size() <= 2)
            {
                int fv = -1;
                bool ok = true;
                for (auto& m : p->t)
                {
                    if (m.first.empty() && m.second.get_den() == 1) c0 = m.second;
                    else if (m.first.size() == 1 && m.first[0].second == 1 && e.vars[m.first[0].first].kind == VK_FLOOR && (m.second == 1 || m.second == -1)) { fv = m.first[0].first; sg = m.second; }
                    else ok = false;
                }
                if (ok && fv >= 0) on = live(e.vars[fv].arg);
                else { c0 = 0; sg = 1; }
            }
            auto ck = std::make_pair(e.pc, std::make_pair(on, tries));
            auto ci = e.concCache.find(ck);
            long v;
            if (ci != e.concCache.end()) v = ci->second;
            else {
            std::map<std::string, double> m;
            std::string be;
            std::vector<int> w;
            Id probe = t_var("@probe");
            Fid eq = f_eq(probe, on);
            std::vector<Fid> fs = e.pc;
            fs.push_back(eq);
            int r = solve(fs, cfg.branchTimeout * 2, 0, &m, &be);
            if (r <= 0) { if (r == 0) throw Infeasible(); throw Unsupported("cannot concretise"); }
            v = (long)std::floor(m["@probe"] + (tries % 2 ? -1e-9 : 1e-9)); // the model value is rounded: try both sides
            e.concCache[ck] = v;
            }
            Fid in = f_and(f_le(mkConst(Q(v)), on), f_lt(on, mkConst(Q(v + 1))));
            if (getenv("ECV_TRACE")) fprintf(stderr, "conc try %ld: %s\n", v, fstr(in).c_str());
            if (decide(in)) { if (getenv("ECV_TRACE")) fprintf(stderr, "  = %ld c0 %s sg %s\n", v, c0.get_str().c_str(), sg.get_str().c_str()); Q r = c0 + sg * Q(v); return on == a ? v : r.get_num().get_si(); }
        }
        throw Unsupported("too many integer values");
    }
    Sym::operator int() const { return (int)(long)*this; }
    Sym::operator long() const
    {
        Sym t = ecv::trunc(*this);
        return concretize(t.id);
    }
    Sym::operator double() const
    {
        Id a = live(id);
        PolyP p = nfTry(a);
        if (p && p->isConst()) return p->constVal().get_d();
        throw Unsupported("conversion of a symbolic real to double");
    }

    // ---------------------------------------------------------- obligations
    static void record(const std::string& name, int status, const std::string& be, double t, const std::map<std::string, double>* model, const std::string& detail)
    {
        Obligation o;
        o.name = name;
        o.path = stats.paths;
        o.status = status;
        o.backend = be;
        o.time = t;
        if (model) o.model = *model;
        for (auto& k : choices) o.model[k.first] = k.second;
        o.detail = detail;
        stats.add(o);
    }
    // alpha*s + beta = 0 with s = sqrt(q): alpha^2 q = beta^2 and alpha, beta of opposite sign
    static bool sqrtEquality(Id t)
    {
        Engine& e = E();
        try
        {
            Poly p = clearInv(*nf(t));
            std::set<int> cand;
            for (auto& k : p.t)
                for (auto& f : k.first)
                    if (e.vars[f.first].kind == VK_SQRT && e.vars[f.first].poly) cand.insert(f.first);
            for (int v : cand)
            {
                Poly al, be;
                bool lin = true;
                for (auto& k : p.t)
                {
                    int ex = 0;
                    Mono r;
                    for (auto& f : k.first) if (f.first == v) ex = f.second; else r.push_back(f);
                    if (ex == 0) be.t[k.first] = k.second;
                    else if (ex == 1) al.t[r] = k.second;
                    else lin = false;
                }
                if (!lin || be.zero()) continue;
                int sa = signPoly(al), sb = signPoly(be);
                bool opp = (sa == 4 && !(sb & 4)) || (sa == 1 && !(sb & 1));
                if (!opp) continue;
                Poly d = padd(pmul(pmul(al, al), *e.vars[v].poly), pmul(be, be), -1);
                if (clearInv(d).zero()) return true;
            }
        }
        catch (TooBig&) { }
        return false;
    }
    static bool triviallyTrue(Fid f, std::string& be)
    {
        if (f == 0) { be = "syntactic"; return true; }
        if (inPc(f)) { be = "hypothesis"; return true; }
        const Form fm = E().forms[f];
        if (fm.k == Form::AND)
        {
            std::string b1, b2;
            if (triviallyTrue(fm.a, b1) && triviallyTrue(fm.b, b2)) { be = b2; return true; }
            return false;
        }
        if (fm.k == Form::OR) return triviallyTrue(fm.a, be) || triviallyTrue(fm.b, be);
        if (fm.k == Form::EQ)
        {
            if (identicallyZero(fm.t) == 1) { be = "ratfun"; return true; }
            if (sqrtEquality(fm.t)) { be = "ratfun-sqrt"; return true; }
            return false;
        }
        if (fm.k == Form::LE || fm.k == Form::LT)
        {
            if (fm.k == Form::LE && dagNonneg(t_neg(fm.t))) { be = "ratfun-sign"; return true; }
            int sg = signTerm(fm.t);
            if (!(sg & (fm.k == Form::LE ? 4 : 6))) { be = "ratfun-sign"; return true; }
            if (fm.k == Form::LE && identicallyZero(fm.t) == 1) { be = "ratfun"; return true; }
        }
        if (fm.k == Form::NE)
        {
            if (!(signTerm(fm.t) & 2)) { be = "ratfun-sign"; return true; }
        }
        return false;
    }
    static int proveRaw(const std::string& name, Fid goal);
    int prove(const std::string& name, Fid goal)
    {
        Engine& e = E();
        auto ck = std::make_pair(e.pc, goal);
        auto ci = e.proveCache.find(ck);
        if (ci != e.proveCache.end() && ci->second.count(name)) return ci->second.begin()->second;
        int r = (ci != e.proveCache.end() && ci->second.begin()->second == 1) ? 1 : -2;
        if (r == 1) record(name, 1, goal == 0 ? "syntactic" : "cached", 0, nullptr, "");
        else r = proveRaw(name, goal);
        e.proveCache[ck][name] = r;
        return r;
    }
    static int proveRaw(const std::string& name, Fid goal)
    {
        Engine& e = E();
        const Form fm = e.forms[goal];
        if (fm.k == Form::AND)
        {
            int a = prove(name, fm.a);
            int b = prove(name, fm.b);
            return a == 0 || b == 0 ? 0 : std::min(a, b);
        }
        double t0 = now();
        std::string be;
        if (triviallyTrue(goal, be)) { record(name, 1, be, now() - t0, nullptr, ""); return 1; }
        Fid ng = f_not(goal);
        std::map<std::string, double> m;
        int r = -1;
        std::vector<Fid> rel = relevant(e.pc, ng);
        rel.push_back(ng);
        std::vector<Fid> all = e.pc;
        all.push_back(ng);
        if (goal == 1) rel = all;
        double T = cfg.proveTimeout;
        struct { const std::vector<Fid>* f; double t; int s; } plan[] = {
            { &rel, T * 0.1, 0 }, { &rel, T * 0.1, 2 }, { &rel, T * 0.15, 1 }, { &all, T * 0.15, 0 }, { &rel, T * 0.3, 4 }, { &all, T * 0.2, 2 }, { &rel, T, 0 }
        };
        for (auto& p : plan)
        {
            if (now() > cfg.deadline) break;
            r = solve(*p.f, p.t, p.s, &m, &be);
            if (r == 1 && p.f == &rel && rel.size() != all.size())
            {
                // the dropped constraints share no variable: a model of the relevant part extends iff the rest is satisfiable
                break;
            }
            if (r >= 0) break;
        }
        if (r == 0) { record(name, 1, be, now() - t0, nullptr, ""); return 1; }
        if (r == 1)
        {
            // look for a well separated, moderate-size counterexample: it survives rounding
            std::vector<Fid> robust = all;
            for (size_t v = 0; v < e.vars.size(); ++v)
                if (e.vars[v].kind == VK_INPUT && e.vars[v].name[0] != '@')
                {
                    robust.push_back(f_le(e.vars[v].term, mkConst(Q(8))));
                    robust.push_back(f_le(mkConst(Q(-8)), e.vars[v].term));
                }
            if (fm.k == Form::EQ)
            {
                robust.pop_back();
                Id tt = fm.t;
                robust.push_back(f_or(f_lt(mkConst(Q(1, 10)), tt), f_lt(tt, mkConst(Q(-1, 10)))));
            }
            std::map<std::string, double> m2;
            std::string b2;
            int r2 = solve(robust, std::min(T * 0.2, 5.0), 0, &m2, &b2);
            if (r2 != 1) { m2.clear(); r2 = solve(all, std::min(T * 0.2, 5.0), 0, &m2, &b2); }
            record(name, 0, be, now() - t0, r2 == 1 ? &m2 : &m, "negation satisfiable");
            return 0;
        }
        record(name, -1, be, now() - t0, nullptr, "undecided: " + lastReason);
        return -1;
    }

    Id t_div(Id a, Id b)
    {
        a = live(a); b = live(b);
        const Q *x = cv(a), *y = cv(b);
        if (y && *y == 0)
        {
            prove("no division by zero", f_false());
            throw Infeasible();
        }
        if (y && x) return mkConst(*x / *y);
        if (y && *y == 1) return a;
        if (y) return t_mul(a, mkConst(1 / *y));
        if (E().active)
        {
            PolyP p = nfTry(b);
            if (p && p->zero()) { prove("no division by zero", f_false()); throw Infeasible(); }
            Fid nz = f_not(f_eq(b, 0));
            if (!(p && nonzeroByInspection(*p)) && !inPc(nz))
            {
                int r = prove("no division by zero", nz);
                if (r != 1) assume(nz);
                else
                {
                    // remember
                    if (p) noteSign(*p, 5);
                }
            }
        }
        if (a == 0) return 0;
        if (a == b) return mkConst(1);
        return mk(OP_DIV, a, b);
    }
    static bool perfectSquare(const Q& q, Q& r)
    {
        if (q < 0) return false;
        mpz_class n, d;
        if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false;
        mpz_sqrt(n.get_mpz_t(), q.get_num_mpz_t());
        mpz_sqrt(d.get_mpz_t(), q.get_den_mpz_t());
        r = Q(n, d);
        r.canonicalize();
        return true;
    }
    static Id sqrtVar(const Poly& p, Id arg)
    {
        Engine& e = E();
        std::string key = "sqrt:" + pkey(p);
        auto it = e.algByKey.find(key);
        if (it != e.algByKey.end()) return e.vars[it->second].term;
        int v = newVar("@sqrt" + std::to_string(e.vars.size()), false, VK_SQRT);
        e.vars[v].poly = std::make_shared<Poly>(p);
        e.vars[v].arg = arg;
        e.vars[v].nonneg = true;
        e.algByKey[key] = v;
        if (getenv("ECV_SLOW")) fprintf(stderr, "%s = sqrt(%s)\n", e.vars[v].name.c_str(), key.c_str());
        return e.vars[v].term;
    }
    static Id polyToTerm(const Poly& p)
    {
        Engine& e = E();
        Id s = 0;
        for (auto& k : p.t)
        {
            Id m = mkConst(k.second);
            Id den = mkConst(1);
            for (auto& f : k.first)
            {
                int n = std::abs(f.second);
                for (int i = 0; i < n; ++i)
                    if (f.second > 0) m = t_mul(m, e.vars[f.first].term); else den = t_mul(den, e.vars[f.first].term);
            }
            if (!(cv(den) && *cv(den) == 1)) m = mk(OP_DIV, m, den);
            s = t_add(s, m);
        }
        return s;
    }
    // polynomial square root: q with q*q == p, leading coefficient positive
    static bool polySqrt(const Poly& p, Poly& q)
    {
        if (p.zero() || p.t.size() > 3000) return false;
        for (auto& k : p.t)
            for (auto& f : k.first)
                if (f.second < 0) return false;
        auto lt = p.t.rbegin();
        Q r;
        if (!perfectSquare(lt->second, r)) return false;
        Mono m;
        for (auto& f : lt->first)
        {
            if (f.second % 2) return false;
            m.push_back({ f.first, f.second / 2 });
        }
        q = Poly();
        q.t[m] = r;
        Mono im = m;
        for (auto& f : im) f.second = -f.second;
        Q c2 = 2 * r;
        Poly rem = padd(p, pmul(q, q), -1);
        for (int it = 0; it < 400 && !rem.zero(); ++it)
        {
            auto l = rem.t.rbegin();
            Mono n = mmul(l->first, im);
            for (auto& f : n) if (f.second < 0) return false;
            Poly t;
            t.t[n] = l->second / c2;
            if (!MonoLess()(n, q.t.begin()->first)) return false;
            // rem -= 2 q t + t^2
            Poly d = padd(pscale(pmul(q, t), Q(2)), pmul(t, t));
            rem = padd(rem, d, -1);
            q = padd(q, t);
        }
        return rem.zero();
    }
    Id t_sqrt(Id a)
    {
        a = live(a);
        Engine& e = E();
        if (const Q* x = cv(a))
        {
            Q r;
            if (*x == 0) return 0;
            if (*x < 0) { prove("no square root of a negative number", f_false()); throw Infeasible(); }
            if (perfectSquare(*x, r)) return mkConst(r);
            return sqrtVar(pconst(*x), a);
        }
        PolyP p = nfTry(a);
        if (p && p->isConst()) return t_sqrt(mkConst(p->constVal()));
        Fid ok = f_le(0, a);
        if (e.active && !(p && polyNonneg(*p)) && !dagNonneg(a) && (signTerm(a) & 1) && !inPc(ok))
        {
            int r = prove("no square root of a negative number", ok);
            if (r != 1) assume(ok);
        }
        if (!p)
        {
            std::string key = "sqrt#" + std::to_string(a);
            auto it = e.algByKey.find(key);
            if (it != e.algByKey.end()) return e.vars[it->second].term;
            int v = newVar("@sqrt" + std::to_string(e.vars.size()), false, VK_SQRT);
            e.vars[v].arg = a;
            e.vars[v].nonneg = true;
            e.algByKey[key] = v;
            return e.vars[v].term;
        }
        // p = c * q with q's leading coefficient 1; pull out the square part of c and nonneg square monomials
        Q c = p->t.rbegin()->second, r;
        Poly q = *p;
        Id out = mkConst(1);
        if (c > 0)
        {
            q = pscale(*p, 1 / c);
            if (perfectSquare(c, r)) out = mkConst(r);
            else out = sqrtVar(pconst(c), mkConst(c));
        }
        Q c2; Mono m; Poly q2;
        split(q, c2, m, q2);
        Mono keep;
        for (auto& f : m)
        {
            const VarInfo& vi = e.vars[f.first];
            int h = f.second / 2;
            bool nonneg = !(signVar(f.first, 0) & 1);
            if (h != 0 && nonneg)
            {
                Id t = vi.term;
                for (int i = 0; i < std::abs(h); ++i)
                    out = h > 0 ? t_mul(out, t) : mk(OP_DIV, out, t);
                if (f.second - 2 * h) keep.push_back({ f.first, f.second - 2 * h });
            }
            else keep.push_back(f);
        }
        Poly rest;
        for (auto& k : q2.t) rest.t[mmul(k.first, keep)] = k.second * c2;
        if (rest.isConst())
        {
            Id s = t_sqrt(mkConst(rest.constVal()));
            return t_mul(out, s);
        }
        Poly pq;
        bool hasSqrtVar = false; // only when reduction cannot interfere
        for (auto& k : rest.t)
            for (auto& f : k.first) { VKind kd = e.vars[f.first].kind; if (kd == VK_SQRT || kd == VK_INV) hasSqrtVar = true; }
        if (!hasSqrtVar && polySqrt(rest, pq)) return t_mul(out, t_abs(polyToTerm(pq)));
        return t_mul(out, sqrtVar(rest, polyToTerm(rest)));
    }
    // |a| : the non-negative root of a^2
    Id t_abs(Id a)
    {
        a = live(a);
        Engine& e = E();
        if (const Q* x = cv(a)) return mkConst(abs(*x));
        int sg = signTerm(a);
        if (!(sg & 1)) return a;
        if (!(sg & 4)) return t_neg(a);
        PolyP p = nfTry(a);
        if (p && p->isConst()) return mkConst(abs(p->constVal()));
        std::string key = "abs#" + std::to_string(a);
        if (p)
        {
            Q lc = p->t.rbegin()->second;
            if (lc < 0) { a = t_neg(a); p = nfTry(a); lc = -lc; }
            if (lc != 1) return t_mul(mkConst(lc), t_abs(t_mul(mkConst(1 / lc), a)));
            key = "abs:" + pkey(*p);
        }
        if (p && e.active)
        {
            // the sign of the cofactor may follow from the path condition
            Q c; Mono m; Poly q;
            split(*p, c, m, q);
            int sm = signMono(m, c, 0);
            bool plain = q.t.size() > 1 && q.t.size() <= 40;
            for (auto& k : q.t) for (auto& g : k.first) if (g.second < 0) plain = false;
            if (plain && (sm == 4 || sm == 1))
            {
                Id qt = polyToTerm(q);
                if (feasible(f_lt(qt, 0)) == 0) return sm == 4 ? a : t_neg(a);
                if (feasible(f_lt(0, qt)) == 0) return sm == 1 ? a : t_neg(a);
            }
        }
        auto it = e.algByKey.find(key);
        if (it != e.algByKey.end()) return e.vars[it->second].term;
        int v = newVar("@abs" + std::to_string(e.vars.size()), false, VK_SQRT);
        if (p) { try { e.vars[v].poly = std::make_shared<Poly>(pmul(*p, *p)); } catch (TooBig&) { } }
        e.vars[v].arg = t_mul(a, a);
        e.vars[v].arg2 = a;
        e.vars[v].nonneg = true;
        e.algByKey[key] = v;
        return e.vars[v].term;
    }
    // numeric_limits<Real>::max() / lowest() act as +-infinity
    static int sentinel(Id a)
    {
        static const Q big(1e307);
        const Q* x = cv(a);
        return !x ? 0 : *x >= big ? 1 : *x <= -big ? -1 : 0;
    }
    Id t_minmax(Id a, Id b, bool mx)
    {
        a = live(a); b = live(b);
        if (a == b) return a;
        Engine& e = E();
        int sa = sentinel(a), sb = sentinel(b);
        if (sa || sb)
        {
            if (sa && sb) return (sa < sb) == mx ? b : a;
            if (sa) return (sa > 0) == mx ? a : b;
            return (sb > 0) == mx ? b : a;
        }
        int sg = signTerm(t_sub(a, b));
        if (!(sg & 1)) return mx ? a : b;
        if (!(sg & 4)) return mx ? b : a;
        if (!e.active) throw Unsupported("symbolic min/max outside a contract");
        if (inPc(f_le(a, b)) || inPc(f_lt(a, b))) return mx ? b : a;
        if (inPc(f_le(b, a)) || inPc(f_lt(b, a))) return mx ? a : b;
        PolyP p = nfTry(a), q = nfTry(b);
        std::string ka = p ? pkey(*p) : "#" + std::to_string(a), kb = q ? pkey(*q) : "#" + std::to_string(b);
        if (kb < ka) { std::swap(ka, kb); std::swap(a, b); }
        std::string key = (mx ? "max:" : "min:") + ka + "," + kb;
        auto it = e.algByKey.find(key);
        if (it != e.algByKey.end()) return e.vars[it->second].term;
        int v = newVar((mx ? "@max" : "@min") + std::to_string(e.vars.size()), false, VK_FN);
        e.vars[v].arg = a;
        e.vars[v].arg2 = b;
        e.algByKey[key] = v;
        Id t = e.vars[v].term;
        std::vector<Fid> ax;
        ax.push_back(mx ? f_le(a, t) : f_le(t, a));
        ax.push_back(mx ? f_le(b, t) : f_le(t, b));
        ax.push_back(f_or(f_eq(t, a), f_eq(t, b)));
        e.vars[v].axioms = ax;
        return t;
    }
    Id t_floor(Id a)
    {
        a = live(a);
        Engine& e = E();
        PolyP p = nfTry(a);
        if (p && p->isConst())
        {
            Q c = p->constVal();
            mpz_class fl;
            mpz_fdiv_q(fl.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t());
            return mkConst(Q(fl));
        }
        std::string key = p ? "floor:" + pkey(*p) : "floor#" + std::to_string(a);
        auto it = e.algByKey.find(key);
        if (it != e.algByKey.end()) return e.vars[it->second].term;
        int v = newVar("@floor" + std::to_string(e.vars.size()), true, VK_FLOOR);
        e.algByKey[key] = v;
        e.vars[v].arg = a;
        Id t = e.vars[v].term;
        Fid a1 = f_le(t, a), a2 = f_lt(a, t_add(t, mkConst(1)));
        e.vars[v].axioms.push_back(a1);
        e.vars[v].axioms.push_back(a2);
        return t;
    }
    static int fnVar(const std::string& f, Id a, Id b, bool two)
    {
        Engine& e = E();
        PolyP p = nfTry(a), q = two ? nfTry(b) : nullptr;
        std::string key = "fn:" + f + ":" + (p ? pkey(*p) : "#" + std::to_string(a));
        if (two) key += "," + (q ? pkey(*q) : "#" + std::to_string(b));
        auto it = e.algByKey.find(key);
        if (it != e.algByKey.end()) return it->second;
        int v = newVar("@" + f + std::to_string(e.vars.size()), false, VK_FN);
        e.vars[v].arg = a;
        e.vars[v].arg2 = b;
        e.algByKey[key] = v;
        return v;
    }
    Id t_fn2(const char* f, Id a, Id b) { return E().vars[fnVar(f, live(a), live(b), true)].term; }
    Id t_fn(const char* f, Id a)
    {
        a = live(a);
        Engine& e = E();
        std::string n(f);
        PolyP p = nfTry(a);
        bool isC = p && p->isConst();
        Q c = isC ? p->constVal() : Q(0);
        if (isC && c == 0)
        {
            if (n == "sin" || n == "tan" || n == "sinh" || n == "tanh" || n == "asin" || n == "atan" || n == "expm1" || n == "erf" || n == "cbrt") return 0;
            if (n == "cos" || n == "exp" || n == "cosh") return mkConst(1);
            if (n == "acos") return t_mul(mkConst(Q(1, 2)), piTerm());
        }
        if (isC && c == 1 && n == "acos") return 0;
        if (isC && c == 1 && (n == "log" || n == "log10")) return 0;
        if (isC && c == -1 && n == "acos") return piTerm();
        if (n == "tan") return t_div(t_fn("sin", a), t_fn("cos", a));
        if (n == "sinh" || n == "cosh")
        {
            Id ex = t_fn("exp", a), en = t_div(mkConst(1), ex);
            return t_mul(mkConst(Q(1, 2)), n == "sinh" ? t_sub(ex, en) : t_add(ex, en));
        }
        if (n == "expm1") return t_sub(t_fn("exp", a), mkConst(1));
        if (n == "cos" || n == "sin" || n == "exp")
        {
            // multiples of pi, parity
            if (p && !p->zero())
            {
                Q lc = p->t.rbegin()->second;
                if (p->t.size() == 1 && p->t.begin()->first.size() == 1 && n != "exp")
                {
                    auto pi = e.varByName.find("@pi");
                    if (pi != e.varByName.end() && p->t.begin()->first[0] == std::make_pair(pi->second, 1))
                    {
                        Q k = lc * 2; // k quarter turns
                        if (k.get_den() == 1)
                        {
                            long r = mpz_class(k.get_num() % 4).get_si();
                            r = (r + 4) % 4;
                            static const int co[] = { 1, 0, -1, 0 }, si[] = { 0, 1, 0, -1 };
                            return mkConst(Q(n == "cos" ? co[r] : si[r]));
                        }
                    }
                }
                if (lc < 0)
                {
                    Id r = t_fn(f, t_neg(a));
                    if (n == "cos") return r;
                    if (n == "sin") return t_neg(r);
                    return t_div(mkConst(1), r);
                }
                // cos(acos x) = x etc.
                if (p->t.size() == 1 && lc == 1 && p->t.begin()->first.size() == 1 && p->t.begin()->first[0].second == 1)
                {
                    const VarInfo vi = e.vars[p->t.begin()->first[0].first];
                    if (vi.kind == VK_FN && vi.name.compare(0, 5, "@acos") == 0)
                        return n == "cos" ? vi.arg : n == "sin" ? t_sqrt(t_sub(mkConst(1), t_mul(vi.arg, vi.arg))) : E().vars[fnVar(n, a, 0, false)].term;
                }
            }
        }
        if ((n == "sin" || n == "cos") && p && e.active)
        {
            // angle addition with an atan2 term: cos(atan2(y,x)) = x/r, sin(atan2(y,x)) = y/r
            for (auto& k : p->t)
            {
                if (k.second != 1 || k.first.size() != 1 || k.first[0].second != 1) continue;
                const VarInfo vi = e.vars[k.first[0].first];
                if (vi.kind != VK_FN || vi.name.compare(0, 6, "@atan2") != 0) continue;
                Id rest = t_sub(a, vi.term);
                PolyP rp = nfTry(rest);
                bool none = rp && rp->zero();
                Id cr = none ? mkConst(1) : t_fn("cos", rest), sr = none ? 0 : t_fn("sin", rest);
                Id y = vi.arg, x = vi.arg2;
                if (decide(f_and(f_eq(x, 0), f_eq(y, 0)))) return n == "cos" ? cr : sr;
                Id r = t_sqrt(t_add(t_mul(x, x), t_mul(y, y)));
                Id C = t_div(x, r), S = t_div(y, r);
                return n == "cos" ? t_sub(t_mul(C, cr), t_mul(S, sr)) : t_add(t_mul(S, cr), t_mul(C, sr));
            }
        }
        int v = fnVar(n, a, 0, false);
        if (!e.vars[v].axioms.empty() || e.vars[v].positive) return e.vars[v].term;
        Id t = e.vars[v].term;
        std::vector<Fid> ax;
        if (n == "exp") { e.vars[v].nonneg = e.vars[v].positive = true; ax.push_back(f_lt(0, t)); ax.push_back(f_le(t_add(a, mkConst(1)), t)); }
        else if (n == "acos")
        {
            if (e.active)
            {
                Fid dom = f_and(f_le(mkConst(-1), a), f_le(a, mkConst(1)));
                int r = prove("acos argument in [-1,1]", dom);
                if (r != 1) assume(dom);
            }
            ax.push_back(f_le(0, t));
            ax.push_back(f_le(t, piTerm()));
            e.vars[v].nonneg = true;
        }
        else if (n == "sin" || n == "cos")
        {
            ax.push_back(f_le(mkConst(-1), t));
            ax.push_back(f_le(t, mkConst(1)));
            int w = fnVar(n == "sin" ? "cos" : "sin", a, 0, false);
            Id u = e.vars[w].term;
            ax.push_back(f_eq(t_add(t_mul(t, t), t_mul(u, u)), mkConst(1)));
        }
        e.vars[v].axioms = ax;
        return t;
    }
    static bool sqHalfInt(double e, long& twice)
    {
        double t = e * 2;
        if (t == std::floor(t) && std::fabs(t) < 64) { twice = (long)t; return true; }
        return false;
    }
    Sym pow(const Sym& a, double ex)
    {
        long tw;
        if (sqHalfInt(ex, tw))
        {
            Sym base = a;
            bool neg = tw < 0;
            if (neg) tw = -tw;
            Sym r(1);
            for (long i = 0; i < tw / 2; ++i) r = r * base;
            if (tw & 1) r = r * sqrt(base);
            return neg ? Sym(1) / r : r;
        }
        if (std::fabs(ex - 1.0 / 3.0) < 1e-16) return cbrt(a);
        PolyP p = nfTry(live(a.id));
        if (p && p->isConst() && p->constVal() > 0) return Sym::of(mkConst(Q(std::pow(p->constVal().get_d(), ex)))); // numeral, in double
        return Sym::of(t_fn2("pow", a.id, t_const_d(ex)));
    }
    Sym pow(const Sym& a, const Sym& ex)
    {
        PolyP p = nfTry(live(ex.id));
        if (p && p->isConst()) return pow(a, p->constVal().get_d());
        return Sym::of(t_fn2("pow", a.id, ex.id));
    }

    std::string t_str(Id a)
    {
        if (a >= E().nodes.size()) return "<uninit>";
        PolyP p = nfTry(a);
        if (!p) return "#" + std::to_string(a);
        std::string s;
        int n = 0;
        for (auto& k : p->t)
        {
            if (n++ > 12) { s += " ..."; break; }
            if (!s.empty()) s += " + ";
            s += k.second.get_str();
            for (auto& f : k.first) s += "*" + E().vars[f.first].name + (f.second == 1 ? "" : "^" + std::to_string(f.second));
        }
        return s.empty() ? "0" : s;
    }
    std::ostream& operator<<(std::ostream& o, const Sym& s) { return o << t_str(s.id); }
    std::istream& operator>>(std::istream& i, Sym& s)
    {
        double d;
        i >> d;
        s = Sym(d);
        return i;
    }

    // ------------------------------------------------------------- driver
    Stats explore(const std::function<void()>& body)
    {
        Engine& e = E();
        stats = Stats();
        e.feasCache.clear(); e.proveCache.clear(); e.concCache.clear();
        double t0 = now();
        e.todo.clear();
        e.todo.push_back({});
        while (!e.todo.empty())
        {
            if (stats.allPaths >= (long)cfg.maxPaths || now() > cfg.deadline)
            {
                stats.incomplete = "path/time budget exhausted";
                break;
            }
            e.prefix = e.todo.back();
            e.todo.pop_back();
            e.pos = 0;
            e.trace.clear();
            e.pc.clear();
            e.signV.clear();
            e.signP.clear();
            e.bnd.clear();
            e.freshN = 0;
            choices.clear();
            e.active = true;
            stats.allPaths++;
            stats.paths++;
            try
            {
                body();
                // cover: is this path's condition satisfiable?
                if (!stats.coverSat)
                {
                    int r = solve(e.pc, cfg.branchTimeout, 0, nullptr, nullptr);
                    if (r == 1) stats.coverSat = true;
                }
            }
            catch (Infeasible&)
            {
                stats.paths--;
                stats.infeasible++;
            }
            catch (Unsupported& u)
            {
                stats.incomplete = u.what();
                e.active = false;
                break;
            }
            catch (std::exception& ex)
            {
                record(std::string("no exception escapes (") + ex.what() + ")", 0, "execution", 0, nullptr, "exception on a feasible path");
                // attach a model of the pc
                std::map<std::string, double> m;
                std::string be;
                if (solve(e.pc, 5, 0, &m, &be) == 1) stats.obls.back().model.insert(m.begin(), m.end());
            }
            e.active = false;
        }
        stats.time = now() - t0;
        return stats;
    }
}
