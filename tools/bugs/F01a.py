PROPERTY='F01'
NEEDS='move assignment between two functions of different thread safety levels'
BREAKS='a move-assigned function keeps the old thread safety level when the new one is stronger'
EDITS=[('include/dcgp/function.hpp', '            m_thread_safety = std::move(other.m_thread_safety);', '            m_thread_safety = m_ptr ? std::min(m_thread_safety, other.m_thread_safety) : other.m_thread_safety;')]
FLAGS=''
DEMO=r'''
#include <dcgp/function.hpp>
struct U{int operator()(int x)const{return x;} pagmo::thread_safety get_thread_safety()const{return pagmo::thread_safety::none;} template<class A>void serialize(A&,unsigned){}};
struct B{int operator()(int x)const{return x;} template<class A>void serialize(A&,unsigned){}};
int main(){
    dcgp::function<int(int)> u=U{}, b=B{};
    if (u.get_thread_safety()!=pagmo::thread_safety::none||b.get_thread_safety()!=pagmo::thread_safety::basic) return 1;
    u=dcgp::function<int(int)>(B{});
    if (u.get_thread_safety()!=pagmo::thread_safety::basic) return 1;
    b=dcgp::function<int(int)>(U{});
    return b.get_thread_safety()!=pagmo::thread_safety::none;
}
'''
