PROPERTY="E11"
NEEDS="saving a network, training it after loading"
BREAKS="the reverse connections used by backpropagation are not archived (they look derivable): a restored network computes wrong gradients until its chromosome changes"
EDITS=[("include/dcgp/expression_ann.hpp","        ar &m_connected;\n","")]
DEMO=r'''
#include <sstream>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/kernel_set.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>
int main(){
    dcgp::kernel_set<double> k({"tanh"});
    dcgp::expression_ann a(2,1,2,2,1,2,k(),3u), b(2,1,2,2,1,2,k(),3u);
    a.set({0,0,1,0,0,1,0,2,3,0,2,3,4}); b.set({0,0,1,0,0,1,0,3,3,0,3,3,5});
    std::stringstream ss;
    { boost::archive::binary_oarchive o(ss); o << a; }
    { boost::archive::binary_iarchive i(ss); i >> b; }
    std::vector<std::vector<double>> x(1,{0.3,0.7}), y(1,{0.2});
    auto mse = dcgp::expression<double>::loss_type::MSE;
    auto ra = a.d_loss(x,y,mse), rb = b.d_loss(x,y,mse);
    return std::get<1>(ra)==std::get<1>(rb) && std::get<2>(ra)==std::get<2>(rb) ? 0 : 1;
}
'''
FLAGS="-O0"
