PROPERTY = "C26"
NEEDS = "a string with a vertical tab or form feed at an end"
BREAKS = "white space other than blanks, tabs and line ends is not trimmed, so a string of nothing else is not empty"
EDITS = [("src/streaming/zarr.common.cpp", """    trimmed.erase(trimmed.begin(),
                  std::find_if(trimmed.begin(), trimmed.end(), [](char c) {
                      return !std::isspace(c);
                  }));
""", """    trimmed.erase(0, trimmed.find_first_not_of(" \\t\\r\\n"));
""")]
DEMO = r'''
#include "zarr.common.hh"
using namespace kit;
int main()
{
    check(zarr::trim(" \t\r\n a b \n") == "a b", "trim");
    check(zarr::trim("\v\f a\v\f") == "a", "trim of a vertical tab");
    check(zarr::is_empty_string("  ", "empty"), "blanks are empty");
    check(zarr::trim("\f \v") == "", "white space is empty");
}
'''
