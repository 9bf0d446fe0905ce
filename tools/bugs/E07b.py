PROPERTY="E07"
NEEDS="the seed 0"
BREAKS="an expression built with the explicit seed 0 takes its seed from the global sequence"
EDITS=[("include/dcgp/expression.hpp","        : m_n(n + n_eph), m_m(m), m_r(r), m_c(c), m_l(l), m_f(f), m_e(seed)","        : m_n(n + n_eph), m_m(m), m_r(r), m_c(c), m_l(l), m_f(f), m_e(seed ? seed : dcgp::random_device::next())")]
DEMO=r'''
#include <dcgp/expression.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    dcgp::expression<double> a(2,2,3,3,2,2,k(),2u,0u), b(2,2,3,3,2,2,k(),2u,0u);
    return a.get() == b.get() && a.get_eph_val() == b.get_eph_val() ? 0 : 1;
}
'''
