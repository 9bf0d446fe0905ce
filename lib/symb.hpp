// Evaluator of printed formulas (python syntax: + - * / **, unary -, function calls). Independent of dcgp.
#ifndef VERIF_SYMB_HPP
#define VERIF_SYMB_HPP
#include <cctype>
#include <cmath>
#include <map>
#include <stdexcept>
#include <string>

namespace symb
{
struct parser {
    const std::string &s;
    const std::map<std::string, double> &env;
    std::size_t p = 0;
    void ws()
    {
        while (p < s.size() && std::isspace(static_cast<unsigned char>(s[p]))) ++p;
    }
    bool eat(const std::string &t)
    {
        ws();
        if (s.compare(p, t.size(), t) == 0) {
            p += t.size();
            return true;
        }
        return false;
    }
    bool at(char c)
    {
        ws();
        return p < s.size() && s[p] == c;
    }
    double expr()
    {
        double v = term();
        while (true) {
            if (eat("+")) v += term();
            else if (eat("-")) v -= term();
            else return v;
        }
    }
    double term()
    {
        double v = unary();
        while (true) {
            ws();
            if (s.compare(p, 2, "**") == 0) throw std::runtime_error("unexpected ** in " + s);
            if (eat("*")) v *= unary();
            else if (eat("/")) v /= unary();
            else return v;
        }
    }
    double unary()
    {
        if (eat("-")) return -unary();
        if (eat("+")) return unary();
        return power();
    }
    double power()
    {
        double v = atom();
        if (eat("**")) return std::pow(v, unary());
        return v;
    }
    double atom()
    {
        ws();
        if (eat("(")) {
            double v = expr();
            if (!eat(")")) throw std::runtime_error("missing ) in " + s);
            return v;
        }
        if (p < s.size() && (std::isdigit(static_cast<unsigned char>(s[p])) || s[p] == '.')) {
            std::size_t n = 0;
            double v = std::stod(s.substr(p), &n);
            p += n;
            return v;
        }
        std::string id;
        while (p < s.size() && (std::isalnum(static_cast<unsigned char>(s[p])) || s[p] == '_')) id += s[p++];
        if (id.empty()) throw std::runtime_error("cannot parse '" + s + "' at " + std::to_string(p));
        if (eat("(")) {
            double v = expr();
            if (!eat(")")) throw std::runtime_error("missing ) in " + s);
            if (id == "sin") return std::sin(v);
            if (id == "cos") return std::cos(v);
            if (id == "tanh") return std::tanh(v);
            if (id == "exp") return std::exp(v);
            if (id == "log") return std::log(v);
            if (id == "sqrt") return std::sqrt(v);
            if (id == "abs") return std::abs(v);
            if (id == "sig") return 1. / (1. + std::exp(-v));
            if (id == "ReLu") return v < 0. ? 0. : v;
            if (id == "ELU") return v < 0. ? std::exp(v) - 1. : v;
            if (id == "ISRU") return v / std::sqrt(1. + v * v);
            if (id == "step") return v < 0. ? 0. : 1.;
            throw std::runtime_error("unknown function " + id + " in " + s);
        }
        auto it = env.find(id);
        if (it == env.end()) throw std::runtime_error("unknown symbol " + id + " in " + s);
        return it->second;
    }
};
inline double eval(const std::string &s, const std::map<std::string, double> &env)
{
    parser p{s, env};
    double v = p.expr();
    p.ws();
    if (p.p != s.size()) throw std::runtime_error("trailing characters in '" + s + "' at " + std::to_string(p.p));
    return v;
}
} // namespace symb
#endif
