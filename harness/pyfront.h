// Stand-ins for what newer versions of Boost.Python and NumPy no longer have.
#pragma once
#include <boost/python.hpp>
#include <numpy/ndarrayobject.h>
#undef import_array
#define import_array() do { if (_import_array() < 0) PyErr_Print(); } while (0)
namespace boost { namespace python { namespace numeric {
struct array : object {
    explicit array(object const& o) : object(o) {}
    object copy() const { return this->attr("copy")(); }
    static void set_module_and_type(char const*, char const*) {}
};
}}}
