// NegativeTable and Nogoods armed their watches the first time they were run and
// remembered having done so in data that backtracking does not restore.  The root of
// AutoTable's subsearch is inside a search level of its own, so when that is the first
// run the watches are taken away again and are never armed in the real search.
#include <gcs/constraints/table/negative_table.hh>
#include <gcs/constraints/nogoods/nogoods.hh>
#include <gcs/presolvers/auto_table/auto_table.hh>
#include <gcs/problem.hh>
#include <gcs/solve.hh>
#include <gcs/restarts.hh>
#include <iostream>
#include <random>
#include <set>
using namespace gcs;
static std::mt19937 rnd(1);
int trial(int kind, bool with, int nv, int dom, const std::vector<std::vector<Integer>> & bad) {
    Problem p;
    std::vector<IntegerVariableID> v;
    for (int i = 0; i < nv; ++i) v.push_back(p.create_integer_variable(0_i, Integer(dom - 1)));
    if (kind == 0) p.post(NegativeTable{v, SimpleTuples{bad}});
    else {
        std::vector<Nogood> ng;
        for (auto & t : bad) { Nogood n; for (int i = 0; i < nv; ++i) n.push_back(v[i] == t[i]); ng.push_back(n); }
        p.post(Nogoods{ng, kind == 1});
    }
    if (with) p.add_presolver(AutoTable{std::vector<IntegerVariableID>{v[0], v[1]}});
    int n = 0;
    solve(p, [&](const CurrentState &) -> bool { ++n; return true; });
    return n;
}
int main() {
    int wrong = 0;
    for (int i = 0; i < 60; ++i) {
        int nv = 2 + rnd() % 3, dom = 2 + rnd() % 2, total = 1;
        for (int j = 0; j < nv; ++j) total *= dom;
        std::set<std::vector<Integer>> s;
        for (int k = rnd() % 8; k >= 0; --k) { std::vector<Integer> t; for (int j = 0; j < nv; ++j) t.push_back(Integer(rnd() % dom)); s.insert(t); }
        std::vector<std::vector<Integer>> bad(s.begin(), s.end());
        for (int kind = 0; kind < 3; ++kind) for (bool with : {false, true})
            if (int n = trial(kind, with, nv, dom, bad); n != total - (int) bad.size()) {
                if (!wrong) std::cout << (kind == 0 ? "NegativeTable" : kind == 1 ? "Nogoods, refined" : "Nogoods, scan") << (with ? " with AutoTable" : "") << ": " << n << " solutions, not " << total - bad.size() << "\n";
                ++wrong;
            }
    }
    std::cout << wrong << " wrong answers\n";
    return wrong != 0;
}
