PROPERTY='L01'
NEEDS='two or more active constants whose mixed second derivative is not zero'
BREAKS='the upper triangle of the Hessian is left zero: Newton steps in several constants are wrong'
EDITS=[('include/dcgp/algorithms/mes4cgp.hpp', '                            fullH(_(hs[0][j].second), _(hs[0][j].first)) = hess[0][j];\n', '')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

#include <dcgp/algorithms/mes4cgp.hpp>
static std::vector<V> T;
struct udp { SR s; V fitness(const V&x) const {T.push_back(x); return s.fitness(x);} std::pair<V,V> get_bounds() const {return s.get_bounds();} V::size_type get_nix() const {return s.get_nix();}
 V gradient(const V&x) const {return s.gradient(x);} std::vector<V> hessians(const V&x) const {return s.hessians(x);} pagmo::sparsity_pattern gradient_sparsity() const {return s.gradient_sparsity();} std::vector<pagmo::sparsity_pattern> hessians_sparsity() const {return s.hessians_sparsity();}
 template <typename A> void serialize(A&,unsigned){} };
int main(){
    dcgp::details::extract_sr_cpp_py = [](const pagmo::problem &p) -> const SR* { return &p.extract<udp>()->s; };
    dcgp::kernel_set<double> k({"sum","mul"});
    // c1*x + c2 : nodes 0:x 1:c1 2:c2 3: x*c1 4: n3+c2, node 5 is not used
    for (unsigned s=0;s<60;++s) {
        udp u{SR(X(),Y(),1u,3u,3u,2u,k(),2u,false,0u,"MSE",s)};
        pagmo::population pop(pagmo::problem(u), 0u, s);
        V b{0.3,-0.4,1,0,1,0,3,2,0,0,1,4}; pop.push_back(b); pop.push_back(b);
        T.clear();
        dcgp::mes4cgp(1u,1u,0.,s).evolve(pop);
        for (auto &x:T) {
            if (!std::equal(x.begin()+2,x.begin()+8,b.begin()+2) || x.back()!=4) continue;
            // the mutant kept the formula: it must sit at the least squares solution
            V g=u.s.gradient(x);
            if (std::abs(g[0])+std::abs(g[1])>1e-6) return 1;
        }
        // any mutant that is linear in both constants
        for (auto &x:T) {
            V at(x); at[0]=b[0]; at[1]=b[1];
            V h=u.s.hessians(at)[0], g0=u.s.gradient(at);
            if (g0[0]==0. || g0[1]==0.) continue;
            double det=h[0]*h[2]-h[1]*h[1];
            if (!(h[0]>1e-6 && det>1e-6)) continue;
            double d0=(h[2]*g0[0]-h[1]*g0[1])/det, d1=(h[0]*g0[1]-h[1]*g0[0])/det;
            if (std::abs(x[0]-at[0]+d0)>1e-6 || std::abs(x[1]-at[1]+d1)>1e-6) return 1;
        }
    }
    return 0;
}
'''
