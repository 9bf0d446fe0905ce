PROPERTY='F02'
NEEDS='a user kernel whose print function is less thread safe than its value'
BREAKS='a restored kernel reports the thread safety of its numeric function only'
EDITS=[('include/dcgp/kernel.hpp', '        ar &m_name;\n', '        ar &m_name;\n        if (Archive::is_loading::value) {\n            m_thread_safety = m_f.get_thread_safety();\n            return;\n        }\n')]
FLAGS=''
DEMO=r'''
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <sstream>
#include <dcgp/kernel_set.hpp>
#include <dcgp/s11n.hpp>
struct F{double operator()(const std::vector<double>&x)const{return x[0];} template<class A>void serialize(A&,unsigned){}};
struct Pr{std::string operator()(const std::vector<std::string>&x)const{return x[0];} pagmo::thread_safety get_thread_safety()const{return pagmo::thread_safety::none;} template<class A>void serialize(A&,unsigned){}};
DCGP_S11N_FUNCTION_EXPORT(f_f,F,double,const std::vector<double>&)
DCGP_S11N_FUNCTION_EXPORT(f_p,Pr,std::string,const std::vector<std::string>&)
int main(){
    dcgp::kernel<double> k(F{},Pr{},"u"), r;
    std::ostringstream o; { boost::archive::text_oarchive a(o); a<<k; }
    std::istringstream i(o.str()); { boost::archive::text_iarchive a(i); a>>r; }
    return !(k.get_thread_safety()==pagmo::thread_safety::none && r.get_thread_safety()==k.get_thread_safety());
}
'''
