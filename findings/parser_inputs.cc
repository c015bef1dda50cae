// C16, C13: inputs that were read as something else (or overflowed) before the fixes 2be1f80, c90d70c and 01627f5.
// g++-14 -std=c++23 -I/repo parser_inputs.cc /repo/gcs/constraints/regular/regex.cc /repo/gcs/exception.cc /repo/<integer overflow source>
#include <examples/dzn.hh>
#include <gcs/constraints/regular/regex.hh>
#include <gcs/exception.hh>
#include <cstdio>
#include <vector>
int main()
{
    int wrong = 0;
    // std::out_of_range escaped instead of the documented exception
    for (auto text : {"99999999999999999999", "1{99999999999999999999}"})
        try { (void) gcs::innards::regex_to_nfa(text, {}); ++wrong; }
        catch (const gcs::InvalidProblemDefinitionException &) { }
        catch (const std::exception & e) { std::printf("'%s': %s\n", text, e.what()); ++wrong; }
    // an entry the text ends inside was dropped
    for (auto text : {"[1, 2, -]", "[1, 2, 99999999999999999999]"})
        try { (void) dzn::Data{"d", {{"a", text}}}.integers("a"); std::printf("'%s' accepted\n", text); ++wrong; }
        catch (const std::runtime_error &) { }
    return wrong;
}
