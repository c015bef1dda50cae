#include <gcs/constraints/table/negative_table.hh>
#include <gcs/presolvers/auto_table/auto_table.hh>
#include <gcs/problem.hh>
#include <gcs/solve.hh>
#include <iostream>
using namespace gcs;
int count(bool with) {
    Problem p;
    auto x = p.create_integer_variable(0_i, 1_i), y = p.create_integer_variable(0_i, 1_i), z = p.create_integer_variable(0_i, 1_i);
    p.post(NegativeTable{{x, y, z}, SimpleTuples{{0_i, 0_i, 0_i}, {1_i, 1_i, 1_i}}});
    if (with) p.add_presolver(gcs::AutoTable{std::vector<IntegerVariableID>{x, y}});
    int n = 0;
    solve(p, [&](const CurrentState & s) -> bool { ++n; std::cout << s(x).raw_value << s(y).raw_value << s(z).raw_value << " "; return true; });
    std::cout << "\n"; return n;
}
int main() { int a = count(false), b = count(true); std::cout << a << " " << b << "\n"; return a != b || a != 6; }
