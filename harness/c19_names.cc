// C19: names of type sets in a program that uses nothing else of the library
// (so that the library's pieces are linked and initialised in the order this
// use implies, as in a user's program).
#include "vh.h"
#include "fern/core/value_types.h"
using namespace vh;
int main(int c, char** v) {
    mon().init(c, v);
    static char const* names[] = {"Bool", "Char", "Uint8", "Int8", "Uint16", "Int16", "Uint32", "Int32", "Uint64", "Int64", "Float32", "Float64", "String"};
    for (unsigned i = 0; i < 13; ++i) {
        mon().at(std::string("name ") + names[i]); mon().seen(names[i]);
        auto s = fern::ValueTypes::from_string(names[i]);
        if (s.count() != 1 || !s.test(i) || s.to_string() != names[i]) mon().violation("name-alone", std::string(names[i]) + " gives " + s.to_string());
    }
    auto n = fern::ValueTypes::from_string("Number"), a = fern::ValueTypes::from_string("All"), s = fern::ValueTypes::from_string("Size");
    mon().seen("aliases");
    if (n.count() != 10 || a.count() != 13 || s.to_string() != "Uint64") mon().violation("name-alone", "aliases: " + n.to_string() + ", " + a.to_string() + ", " + s.to_string());
    return mon().finish();
}
