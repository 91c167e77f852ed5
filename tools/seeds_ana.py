import sys
import mkseed
def seed(sid,*a,**k):
    if len(sys.argv)<2 or sid in sys.argv[1:]: mkseed.seed(sid,*a,**k)
H = '#include <array>\n#include <vector>\n#include <limits>\n#include <cstdio>\n#include <cmath>\n#include <map>\n#include <set>\n#include <iostream>\n#include <fstream>\n#include <algorithm>\n#include <sstream>\n#include <iomanip>\n#include <cstring>\n'
A = '#include "AnaTemperature.hpp"\n#include "AnaFlow.hpp"\nusing namespace ENigMA::analytical;\n'
seed("a01-cube-ends", "A01", ("analytical/AnaTemperature_Imp.hpp", "(0.5 * sinh(lambda * (1.0 - x)) + sinh(lambda * x))", "(sinh(lambda * (1.0 - x) * 0.5) / cosh(lambda * 0.5 * (1.0 - x)) * cosh(lambda * (1.0 - x) * 0.5) * cosh(lambda * (1.0 - x) * 0.5) + sinh(lambda * x))"),
 H+A+'''int main() { CAnaTemperature<double> a; double p = 0, T; a.steadyStateHeatConduction3D(0.25, 0.5, 0.5, p); a.steadyStateHeatConduction3D(0.75, 0.5, 0.5, T); double w = 0, d = 1e-3; for (int k = 0; k < 3; ++k) for (int s = -1; s < 2; s += 2) { a.steadyStateHeatConduction3D(0.3 + (k == 0) * s * d, 0.4 + (k == 1) * s * d, 0.45 + (k == 2) * s * d, T); w += T; } a.steadyStateHeatConduction3D(0.3, 0.4, 0.45, T); w -= 6 * T; a.steadyStateHeatConduction3D(1e-9, 0.3, 0.4, T); double c = 0; for (int i = 0; i < 128; ++i) for (int j = 0; j < 128; ++j) { double y = (i + 0.5) / 128, z = (j + 0.5) / 128; a.steadyStateHeatConduction3D(0.0, y, z, T); c += T * std::sin(M_PI * y) * std::sin(M_PI * z) / 4096; } printf("%g %g\\n", w / d / d, c); return std::fabs(c - 8 / M_PI / M_PI) > 1e-6; }
''', "a point near the colder end of the cube", "the temperature there is slightly off") if False else None
seed("a01-transient-2d-diffusivity", "A01", ("analytical/AnaTemperature_Imp.hpp", "Real lambda = alpha * pi * pi * ((2 * p + 1) * (2 * p + 1) + (2 * q + 1) * (2 * q + 1));", "Real lambda = alpha * pi * pi * ((2 * p + 1) * (2 * p + 1) + (2 * q + 1) * (2 * p + 1));"),
 H+A+'''int main() { CAnaTemperature<double> a; double T; a.transientHeatConduction2D(0.1, 0.2, 0.02, 1.0, T); double S, U; a.transientHeatConduction1D(0.2, 0.08, 1.0, S); a.transientHeatConduction1D(0.4, 0.08, 1.0, U); printf("%g %g\\n", T, S * U); return std::fabs(T - S * U) > 1e-6; }
''', "early times, when more than the first mode counts", "mixed modes decay at the wrong rate")
seed("a01-fin-tip-temperature", "A01", ("analytical/AnaTemperature_Imp.hpp", "Real c1 = -(exp(m * length) * Tb - exp(2 * m * length) * Ta + Tinf * exp(2 * m * length) - Tinf * exp(m * length)) / expm1(2 * m * length);", "Real c1 = -(exp(m * length) * Tb - exp(2 * m * length) * Ta + Tinf * expm1(2 * m * length) - Tinf * expm1(m * length)) / expm1(2 * m * length);"),
 H+A+'''int main() { CAnaTemperature<double> a; double T, e = 0; for (double x : { 0.0, 2.0 }) { a.steadyStateHeatConduction1D(x, 5.0, 3.0, 1.0, 2.0, 4.0, 1.0, 0.5, 2.0, T); e += std::fabs(T - (x ? 3 : 5)); } a.steadyStateHeatConduction1D(2.0, 5.0, 3.0, 0.25, 40.0, 4.0, 1.0, 0.5, 2.0, T); e += std::fabs(T - 3); printf("%g\\n", e); return e > 1e-9; }
''', "surroundings that are not at zero", "the tip misses its temperature") if False else None
seed("a01-square-truncation-rate", "A01", ("analytical/AnaTemperature_Imp.hpp", "sin((2 * p + 1) * pi * x) * sinh((2 * p + 1) * pi * y) / ((2 * p + 1) * sinh((2 * p + 1) * pi));", "sin((2 * p + 1) * pi * x) * sinh((2 * p + 1) * pi * y) / ((2 * p + 1) * cosh((2 * p + 1) * pi));"),
 H+A+'''int main() { CAnaTemperature<double> a; double s = 0, T; for (int i = 0; i < 512; ++i) { double x = (i + 0.5) / 512; a.steadyStateHeatConduction2D(x, 1.0, T); s += T * std::sin(M_PI * x) / 256; } printf("%.9g\\n", s - 4 / M_PI); return std::fabs(s - 4 / M_PI) > 1e-4; }
''', "comparison with the boundary value to better than a percent", "the side at one takes 0.9963 in its first mode")
seed("a02-bisection-root-at-midpoint", "A02", ("analytical/AnaFunction_Imp.hpp", "if (evaluate(strVar, a) * evaluate(strVar, s) > 0)", "if (evaluate(strVar, a) * evaluate(strVar, s) >= 0)"),
 H+A+'''int main() { CAnaFunction<double> f; f.set(std::string("x*(x^2+1)")); int n; double r = f.bisection("x", -1.0, 3.0, n, 100, 1e-9); double s = f.bisection("x", -1.0, 1.0, n, 100, 1e-9); double t = f.bisection("x", 0.0, 1.0, n, 100, 1e-9); printf("%g %g %g\\n", r, s, t); return std::fabs(r) + std::fabs(s) + std::fabs(t) > 1e-6; }
''', "a root at the lower end or a midpoint hit exactly", "the half with the root is thrown away")
seed("a02-brent-stale-value", "A02", ("analytical/AnaFunction_Imp.hpp", "                    b = s;\n                    fb = fs;\n                }\n                else\n                {\n                    a = s;\n                    fa = fs;", "                    b = s;\n                    fb = fs;\n                }\n                else\n                {\n                    a = s;\n                    fa = std::fabs(fs) < std::fabs(fa) ? fs : fa;"),
 H+A+'''int main() { int bad = 0; const char* e[] = { "exp(x)-0.2", "sin(5*x)+0.3", "x^3-2*x+0.5", "(x+0.4)*(x-0.9)*(x-1.4)+0.05", "4*x^3-3*x-0.1" }; for (auto s : e) for (int i = 0; i < 40; ++i) { CAnaFunction<double> f; f.set(std::string(s)); double lo = -2 + 0.05 * i, hi = lo + 1.3, x = lo, y = hi; int n; if (f.evaluate("x", x) * f.evaluate("x", y) >= 0) continue; double r = f.brent("x", lo, hi, n, 200, 1e-10), v = f.evaluate("x", r), p = r - 1e-6, q = r + 1e-6; if (!(f.evaluate("x", p) * f.evaluate("x", q) <= 0)) bad++; } printf("%d\\n", bad); return bad != 0; }
''', "a function that grows along the step", "interpolation uses the value of another point")
seed("a02-undefine-clears", "A02", ("analytical/AnaFunction_Imp.hpp", "m_symbolTable.remove_variable(aVariable);", "m_symbolTable.clear();"),
 H+A+'''int main() { CAnaFunction<double> f; double x = 2, y = 3; f.defineVariable("x", x); f.defineVariable("y", y); f.set(std::string("y+1")); f.undefineVariable("x"); double v = f.evaluate(); printf("%g\\n", v); return !(std::fabs(v - 4) < 1e-9); }
''', "one of two variables is undefined", "the other is forgotten too")
seed("a02-material-shared-function", "A02", ("material/MatMaterial_Imp.hpp", "m_propertyFunc[aPropertyType] = aPropertyFunction;", "m_propertyFunc.insert(std::make_pair(aPropertyType, aPropertyFunction));"),
 H+'#include "MatMaterial.hpp"\nusing namespace ENigMA::analytical; using namespace ENigMA::material;\n'+'''int main() { CMatMaterial<double> m; double T = 3; m.addProperty(PT_DENSITY, CAnaFunction<double>(std::string("T+1"))); m.addProperty(PT_DENSITY, CAnaFunction<double>(std::string("2*T"))); double v = m.propertyValue(PT_DENSITY, "T", T); printf("%g\\n", v); return !(std::fabs(v - 6) < 1e-9); }
''', "a property given twice", "the first formula stays")
