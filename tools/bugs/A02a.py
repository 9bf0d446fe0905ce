PROPERTY="A02"
NEEDS="a node connected twice to the same preceding node (not an input), and a weight of a node before it"
BREAKS="back-propagation bookkeeping keeps only one of several connections between the same two nodes"
EDITS=[("include/dcgp/expression_ann.hpp","                    if (this->is_active_node(this->get()[idx + i])) {\n","                    auto &into = m_connected[this->get()[idx + i]];\n                    if (this->is_active_node(this->get()[idx + i]) && (into.empty() || into.back().first != node_id)) {\n")]
DEMO=r'''
#include <dcgp/expression_ann.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum"});
    dcgp::expression_ann a(1,1,1,2,1,2u,k(),0u);
    a.set({0,0,0, 0,1,1, 2});
    std::vector<std::vector<double>> x(1,{2.}), y(1,{0.});
    auto d = a.d_loss(x,y,dcgp::expression<double>::loss_type::MSE);
    // f = 2 (w0 + w1) x, dL/dw0 = 2 f 2 x = 2*8*4
    return std::abs(std::get<1>(d)[0] - 64.) < 1e-9 ? 0 : 1;
}
'''
