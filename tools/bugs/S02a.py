PROPERTY='S02'
NEEDS='a gradient asked right after a Hessian with a phenotype correction set in between'
BREAKS='the gradient cached by hessians is returned although the phenotype correction has changed'
EDITS=[('include/dcgp/problems/symbolic_regression.hpp', '        std::vector<double> retval(m_n_eph, 0);\n        // The chromosome has a floating', '        if (x == m_cache_gradient.first) {\n            return m_cache_gradient.second;\n        }\n        std::vector<double> retval(m_n_eph, 0);\n        // The chromosome has a floating')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    SR a(X(),Y(),1u,2u,2u,2u,k(),1u,false,0u,"MSE",1u);
    V x{0.5, 0,0,1, 0,0,1, 2};
    SR b(a);
    using F=std::function<V(const V&,std::function<V(const V&)>)>;
    using G=std::function<std::vector<audi::gdual_v>(const std::vector<audi::gdual_v>&,std::function<std::vector<audi::gdual_v>(const std::vector<audi::gdual_v>&)>)>;
    auto pc=[](const V &p, std::function<V(const V&)> g){auto r=g(p); for(auto &z:r) z=z*z; return r;};
    auto dpc=[](const std::vector<audi::gdual_v> &p, std::function<std::vector<audi::gdual_v>(const std::vector<audi::gdual_v>&)> g){auto r=g(p); for(auto &z:r) z=z*z; return r;};
    a.hessians(x);
    a.set_phenotype_correction(pc,dpc);
    b.set_phenotype_correction(pc,dpc);
    return near(a.gradient(x)[0], b.gradient(x)[0]) ? 0 : 1;
}
'''
