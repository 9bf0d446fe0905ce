PROPERTY='S02'
NEEDS='two successive gradients with different active constants on one problem'
BREAKS='only the constants active in the previously set chromosome are differentiated'
EDITS=[('include/dcgp/problems/symbolic_regression.hpp', '        m_dcgp.set(xu);\n        // 2 - We use the floating point part of the chromosome to set ephemeral constants.\n', '        // 2 - We use the floating point part of the chromosome to set ephemeral constants (active ones only matter).\n        const auto &active = m_dcgp.get_active_nodes();\n'), ('include/dcgp/problems/symbolic_regression.hpp', '            eph_val.emplace_back(x[i], m_dcgp.get_eph_symb()[i], 1u); // Only first derivative is needed\n        }\n        m_dcgp.set_eph_val(eph_val);', '            if (std::binary_search(active.begin(), active.end(), m_dcgp.get_n() - m_n_eph + i)) {\n                eph_val.emplace_back(x[i], m_dcgp.get_eph_symb()[i], 1u); // Only first derivative is needed\n            } else {\n                eph_val.emplace_back(x[i]);\n            }\n        }\n        m_dcgp.set(xu);\n        m_dcgp.set_eph_val(eph_val);')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    SR a(X(),Y(),1u,2u,2u,2u,k(),2u,false,0u,"MSE",1u);
    V x{0.5, 0.25, 0,0,1, 0,0,1, 3}, z{0.5, 0.25, 0,0,2, 0,0,2, 3};
    a.gradient(x);
    V g=a.gradient(z);
    // loss = mean (x+c2-y)^2, dl/dc2 = 2 mean(x+c2-y)
    double d=0; auto p=X(), q=Y();
    for (unsigned i=0;i<4;++i) d += 2*(p[i][0]+0.25-q[i][0])/4;
    return near(g[1], d) && g[0]==0. ? 0 : 1;
}
'''
