// Stand-in for the bundled expression parser while the code is verified over symbolic scalars (exprtk needs IEEE
// arithmetic). It declares what CAnaFunction uses. A formula is a function of the variables it is evaluated under,
// given by the contract (exprtk::formula<T>::value); without one, evaluation aborts the contract. Formula evaluation
// itself is covered by A02, over the real exprtk.
#ifdef ECV_REAL_EXPRTK
#include_next <exprtk.hpp>
#endif
#ifndef INCLUDE_EXPRTK_HPP
#define INCLUDE_EXPRTK_HPP
#include <cstddef>
#include <cstdio>
#include <functional>
#include <list>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
namespace exprtk
{
    template <class T> struct symbol_table {
        std::map<std::string, T*> v;
        bool add_variable(const std::string& n, T& x) { return v.insert({ n, &x }).second; }
        bool remove_variable(const std::string& n) { return v.erase(n) > 0; }
        bool add_constants() { return true; }
        void clear() { v.clear(); }
    };
    template <class T> struct formula {
        typedef std::function<T(const std::map<std::string, T*>&)> F;
        static F& value() { static F f; return f; }
    };
    template <class T> struct expression {
        std::map<std::string, T*> v;
        void register_symbol_table(symbol_table<T>& s) { v.insert(s.v.begin(), s.v.end()); }
        T value()
        {
            if (!formula<T>::value()) throw std::logic_error("formula evaluation is outside this contract");
            return formula<T>::value()(v);
        }
    };
    template <class T> struct parser {
        bool compile(const std::string&, expression<T>&) { return true; }
    };
}
#endif
