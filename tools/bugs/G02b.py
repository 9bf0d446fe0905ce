PROPERTY="G02"
NEEDS="two particular observations of gauss1"
BREAKS="the labels of two neighbouring observations are exchanged"
EDITS=[("include/dcgp/nist_data.hpp","{98.43134},  {110.4214}, {107.6628},  {111.7288}","{98.43134},  {107.6628}, {110.4214},  {111.7288}")]
DEMO=r'''
#include <dcgp/gym.hpp>
#include <cmath>
using D=std::vector<std::vector<double>>;
int main(){ D x,y; dcgp::gym::generate_gauss1(x,y); double s=0;
 auto q=[](double z){return z*z;};
 for (size_t i=0;i<x.size();++i) s+=q(y[i][0]-(98.778210871*std::exp(-0.010497276517*x[i][0])+100.48990633*std::exp(-q((x[i][0]-67.481111276)/23.129773360))+71.994503004*std::exp(-q((x[i][0]-178.99805021)/18.389389025))));
 return std::abs(s-1315.8222432)<1e-6 ? 0 : 1; }
'''
