// Stand-in for SymEngine::Expression: keeps the source string (no simplification).
#ifndef VERIF_SHIM_SYMENGINE_H
#define VERIF_SHIM_SYMENGINE_H
#include <ostream>
#include <string>
namespace SymEngine
{
class Expression
{
public:
    Expression() = default;
    Expression(const std::string &s) : m_s(s) {}
    friend std::ostream &operator<<(std::ostream &os, const Expression &e)
    {
        return os << e.m_s;
    }

private:
    std::string m_s;
};
inline Expression expand(const Expression &e)
{
    return e;
}
} // namespace SymEngine
#endif
