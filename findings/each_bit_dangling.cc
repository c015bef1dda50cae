#include <gcs/gcs.hh>
#include <iostream>
using namespace gcs;
int main(){ Problem p; auto v=p.create_integer_variable_vector(4,0_i,3_i,"v"); p.post(AllDifferent{v}); p.post(LessThan{v[0],v[1]}); int n=0; auto s=solve_with(p,SolveCallbacks{.solution=[&](const CurrentState&){++n;return true;}}, ProofOptions{"/tmp/w/demo"}); std::cout<<n<<"\n"<<s; }
