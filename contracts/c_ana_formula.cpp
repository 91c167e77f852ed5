// over the real expression parser
#define ECV_REAL_EXPRTK
#define exprtk_disable_string_capabilities
#define exprtk_disable_rtl_io
#include "geo_common.hpp"
#include <map>
#include "AnaTemperature.hpp"
#include "MatMaterial.hpp"
using namespace spec;
using namespace ENigMA::analytical;
using namespace ENigMA::material;

namespace
{
    // a random formula, its text and its value under given variables
    struct Formula {
        std::mt19937& g;
        std::map<std::string, double>& v;
        std::string text(int depth, double& x)
        {
            char b[64];
            double y, z;
            std::string s, t;
            switch (depth == 0 ? g() % 3 : g() % 10)
            {
            case 0: case 1: {
                auto i = v.begin();
                std::advance(i, g() % v.size());
                x = i->second;
                return i->first;
            }
            case 2: x = double(int(g() % 64)) / 4; snprintf(b, sizeof b, "%.2f", x); return b;
            case 3: s = text(depth - 1, y), t = text(depth - 1, z), x = y + z; return "(" + s + "+" + t + ")";
            case 4: s = text(depth - 1, y), t = text(depth - 1, z), x = y - z; return "(" + s + " - " + t + ")";
            case 5: s = text(depth - 1, y), t = text(depth - 1, z), x = y * z; return s + "*" + t;
            case 6: s = text(depth - 1, y), t = text(depth - 1, z), x = y / (1 + z * z); return s + "/(1+(" + t + ")^2)";
            case 7: s = text(depth - 1, y), x = std::sin(y); return "sin(" + s + ")";
            case 8: s = text(depth - 1, y), x = std::exp(-y * y); return "exp(-(" + s + ")*(" + s + "))";
            default: s = text(depth - 1, y), x = -y * M_PI; return "(-(" + s + ")*pi)";
            }
        }
    };
    bool same(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
}

RUNTIME_CONTRACT("A02", formula_value, "CAnaFunction::set, define/undefine/removeAllVariables, evaluate; CMatMaterial", "generated formulas of up to eight operations over up to four variables, histories of twelve steps")
{
    std::mt19937 g(c.choose("seed", 1 << 20));
    std::map<std::string, double> held = { { "x", 0 }, { "y", 0 }, { "T", 0 }, { "rho1", 0 } }, defined;
    auto draw = [&] { return double(int(g() % 33) - 16) / 4; };
    for (auto& h : held) h.second = draw();
    CAnaFunction<double> a;
    CMatMaterial<double> m;
    m.addProperty(PT_DENSITY, 7.5);
    bool ok = true, args = true, constant = true, mat = true;
    std::string f;
    for (int step = 0; step < 12; ++step)
    {
        auto it = held.begin();
        std::advance(it, g() % 4);
        auto jt = held.begin();
        std::advance(jt, g() % 4);
        double w, p = draw(), q = draw();
        switch (g() % 8)
        {
        case 0: if (!defined.count(it->first)) a.defineVariable(it->first, it->second), defined[it->first] = 0; break;
        case 1: a.undefineVariable(it->first), defined.erase(it->first); break;
        case 2: if (g() % 4 == 0) a.removeAllVariables(), defined.clear(); break;
        case 3: it->second = draw(); break; // the function follows the variable it was given
        case 4: {
            if (defined.empty()) break;
            std::map<std::string, double> now;
            for (auto& d : defined) now[d.first] = held[d.first];
            a.set(Formula { g, now }.text(3, w));
            ok = ok && same(a.evaluate(), w) && same(a.evaluate(), w);
            break;
        }
        case 5: {
            std::map<std::string, double> now;
            for (auto& d : defined) now[d.first] = held[d.first];
            now[it->first] = p;
            if (g() % 2) now[jt->first] = it == jt ? p : q, a.set(Formula { g, now }.text(3, w)), args = args && (it == jt ? same(a.evaluate(it->first, p), w) : same(a.evaluate(it->first, p, jt->first, q), w));
            else a.set(Formula { g, now }.text(3, w)), args = args && same(a.evaluate(it->first, p), w);
            // a variable handed over as an argument is not defined by that
            break;
        }
        case 6:
            a.set(p), constant = constant && a.evaluate() == p && a.evaluate("x", q) == p && a.evaluate("x", q, "y", w) == p;
            break;
        default: {
            std::map<std::string, double> now = { { "T", p }, { "c", q } };
            m.addProperty(PT_VISCOSITY, CAnaFunction<double>(Formula { g, now }.text(3, w)));
            mat = mat && same(m.propertyValue(PT_VISCOSITY, "T", p, "c", q), w) && m.propertyValue(PT_DENSITY) == 7.5;
        }
        }
    }
    c.ensure("a formula has its value under the defined variables", c.is(ok));
    c.ensure("arguments take the place of variables, others keep their definition", c.is(args));
    c.ensure("a constant has its value for every argument", c.is(constant));
    c.ensure("a material property has the value of its formula", c.is(mat));
}

// h P T + e s P T^4 = k A T'': integrated once, T' = -T sqrt(M + 2/5 S T^3), and once more x(T)
RUNTIME_CONTRACT("A01", fin_radiation, "CAnaTemperature::steadyStateHeatConvectionRadiation1D", "generated fins")
{
    std::mt19937 g(c.choose("seed", 1 << 20));
    auto U = [&](double lo, double hi) { return lo + (hi - lo) * g() / 4294967296.0; };
    double Tb = U(300, 900), h = U(1, 40), e = U(0.1, 1), k = U(5, 200), P = U(0.05, 0.3), A = P * U(0.002, 0.02), s = 5.6704e-8, M = h * P / (k * A), S = P * e * s / (k * A);
    double x = U(0.05, 2.5) / std::sqrt(M + S * Tb * Tb * Tb), T = -1;
    // the solution, from the base along the fin
    double w = Tb;
    int n = 400;
    auto slope = [&](double T) { return -T * std::sqrt(M + 0.4 * S * T * T * T); };
    for (int i = 0; i < n; ++i) { double d = x / n, a = slope(w), b = slope(w + d * a / 2), cc = slope(w + d * b / 2), dd = slope(w + d * cc); w += d * (a + 2 * b + 2 * cc + dd) / 6; }
    CAnaTemperature<double> a;
    a.steadyStateHeatConvectionRadiation1D(x, Tb, h, e, k, P, A, T);
    c.ensure("temperature along a fin that convects and radiates", c.is(std::fabs(T - w) <= 1e-6 * Tb));
}
