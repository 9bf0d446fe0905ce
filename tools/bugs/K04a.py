PROPERTY='K04'
NEEDS='a kernel whose print function is less thread safe than its value'
BREAKS='a kernel is as thread safe as its numeric function, whatever its print function'
EDITS=[('include/dcgp/kernel.hpp', 'm_name(name)\n    {\n        m_thread_safety = std::min(m_f.get_thread_safety(), m_pf.get_thread_safety());', 'm_name(name)\n    {\n        m_thread_safety = m_f.get_thread_safety();')]
FLAGS=''
DEMO=r'''
#include <dcgp/kernel_set.hpp>
struct F{double operator()(const std::vector<double>&x)const{return x[0];} template<class A>void serialize(A&,unsigned){}};
struct Pr{std::string operator()(const std::vector<std::string>&x)const{return x[0];} pagmo::thread_safety get_thread_safety()const{return pagmo::thread_safety::none;} template<class A>void serialize(A&,unsigned){}};
int main(){
    dcgp::kernel<double> k(F{},Pr{},"u"), j(F{},[](const std::vector<std::string>&x){return x[0];},"v");
    return !(k.get_thread_safety()==pagmo::thread_safety::none && j.get_thread_safety()==pagmo::thread_safety::basic);
}
'''
