#pragma once
#include "pybind11.h"
namespace pybind11 {
// a list-like class whose instances are the C++ vector itself
template<typename V, typename... E>
class_<V>
bind_vector(module_& m, const std::string& name, const E&...)
{
    using T = typename V::value_type;
    class_<V> c(m, name.c_str());
    auto items = [](const object& it) {
        V v;
        if (it.p && it.p->kind == Obj::List)
            for (const auto& e : it.p->list)
                v.push_back(load_instance<T>(e));
        else
            v = load_instance<V>(it.p);
        return v;
    };
    c.def(init<>());
    c.def(init([items](object it) { return items(it); }));
    c.def("append", [](V& v, const T& x) { v.push_back(x); });
    c.def("extend", [items](V& v, object it) {
        const V more = items(it);
        v.insert(v.end(), more.begin(), more.end());
    });
    c.def("clear", [](V& v) { v.clear(); });
    c.def("__len__", [](const V& v) { return v.size(); });
    c.def(
      "__getitem__",
      [](V& v, int64_t i) -> T& {
          if (i < 0)
              i += (int64_t)v.size();
          if (i < 0 || i >= (int64_t)v.size())
              throw index_error();
          return v[(size_t)i];
      },
      return_value_policy::reference_internal);
    c.def("__setitem__", [](V& v, int64_t i, const T& x) {
        if (i < 0)
            i += (int64_t)v.size();
        if (i < 0 || i >= (int64_t)v.size())
            throw index_error();
        v[(size_t)i] = x;
    });
    c.def("insert", [](V& v, int64_t i, const T& x) {
        if (i < 0)
            i += (int64_t)v.size();
        if (i < 0 || i > (int64_t)v.size())
            throw index_error();
        v.insert(v.begin() + i, x);
    });
    c.def("pop", [](V& v) {
        if (v.empty())
            throw index_error();
        T t = v.back();
        v.pop_back();
        return t;
    });
    return c;
}
}
