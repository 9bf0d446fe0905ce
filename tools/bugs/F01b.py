PROPERTY='F01'
NEEDS='an archive that ends in the middle of a function object'
BREAKS='a failed load leaves the target half overwritten'
EDITS=[('include/dcgp/function.hpp', '        // Deserialize in a separate object and move it in later, for exception safety.\n        function tmp_func;\n        ar >> tmp_func.m_ptr;\n        ar >> tmp_func.m_thread_safety;\n        *this = std::move(tmp_func);', '        ar >> m_ptr;\n        pagmo::thread_safety ts;\n        ar >> ts;\n        m_thread_safety = ts;')]
FLAGS=''
DEMO=r'''
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <sstream>
#include <dcgp/function.hpp>
#include <dcgp/s11n.hpp>
struct A1{int k=1; int operator()(int x)const{return x+k;} template<class A>void serialize(A&a,unsigned){a&k;}};
DCGP_S11N_FUNCTION_EXPORT(a1,A1,int,int)
int main(){
    dcgp::function<int(int)> f=A1{5};
    std::ostringstream o; { boost::archive::text_oarchive a(o); a<<f; }
    std::string s=o.str();
    for (std::size_t n=0;n<s.size();++n){
        dcgp::function<int(int)> g=A1{100};
        std::istringstream i(s.substr(0,n));
        try { boost::archive::text_iarchive a(i); a>>g; } catch(...) { if (!g.is_valid()||g(1)!=101) return 1; }
    }
    return 0;
}
'''
