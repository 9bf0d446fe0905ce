PROPERTY='S03'
NEEDS='kernels of which only one that is not the last is thread unsafe'
BREAKS='the thread safety level is that of the last kernel'
EDITS=[('include/dcgp/problems/symbolic_regression.hpp', '[](const auto &a, const auto &b) { return a.get_thread_safety() < b.get_thread_safety(); }', '[](const auto &a, const auto &b) { return a.get_thread_safety() > b.get_thread_safety(); }')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

struct un { double operator()(const V&v) const {return v[0]+v[1];} pagmo::thread_safety get_thread_safety() const {return pagmo::thread_safety::none;}
  template <typename A> void serialize(A&,unsigned){} };
struct us { std::string operator()(const std::vector<std::string>&v) const {return v[0];} template <typename A> void serialize(A&,unsigned){} };
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    auto f=k();
    f.insert(f.begin(), dcgp::kernel<double>(dcgp::function<double(const V&)>(un{}), us{}, "sum"));
    SR a(X(),Y(),1u,2u,2u,2u,f,2u,false,0u,"MSE",1u);
    return a.get_thread_safety()==pagmo::thread_safety::none ? 0 : 1;
}
'''
