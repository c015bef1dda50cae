#include <gcs/gcs.hh>
#include <iostream>
using namespace gcs;
int main(){ Problem p; auto x=p.create_integer_variable(0_i,1_i,"x"), y=p.create_integer_variable(0_i,1_i,"y"), z=p.create_integer_variable(0_i,2_i,"z");
 p.post(LinearEquality{WeightedSum{}+1_i*x+1_i*y+-1_i*z,0_i});
 p.post(NegativeTable{{x,y},SimpleTuples{{1_i,1_i}}});
 int n=0; auto s=solve_with(p,SolveCallbacks{.solution=[&](const CurrentState&s){++n;std::cout<<s(x)<<s(y)<<s(z)<<"\n";return true;},.branch=branch_with(variable_order::in_order({z,x,y}),value_order::largest_first())}); std::cout<<n<<"\n"; }
