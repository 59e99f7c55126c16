// A stand-in for the part of pybind11 the binding uses: the same declarations, over a small object model of its own instead of CPython.
// What pybind11 documents is kept: attributes bound with def_readwrite are references into their owner, values that are cast are copies,
// integers that do not fit and objects of another type are refused, C++ exceptions become Python ones, arrays have any strides.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

#ifndef FAKE_PYBIND11
#define FAKE_PYBIND11
using Py_ssize_t = ptrdiff_t;
struct PyObject
{
    const char* name;
};
#define FAKE_PY_EXC(n)                                                                                                                      \
    inline PyObject fake_exc_##n{ #n };                                                                                                     \
    inline PyObject* PyExc_##n = &fake_exc_##n;
FAKE_PY_EXC(RuntimeError)
FAKE_PY_EXC(ValueError)
FAKE_PY_EXC(TypeError)
FAKE_PY_EXC(IndexError)
FAKE_PY_EXC(KeyError)
FAKE_PY_EXC(OverflowError)
FAKE_PY_EXC(MemoryError)
FAKE_PY_EXC(BufferError)
FAKE_PY_EXC(OSError)
FAKE_PY_EXC(Exception)
FAKE_PY_EXC(AttributeError)
struct FakePyErr
{
    std::string type, message;
};
inline thread_local std::optional<FakePyErr> fake_py_err;
inline void
PyErr_SetString(PyObject* t, const char* m)
{
    fake_py_err = FakePyErr{ t->name, m };
}
inline PyObject*
PyErr_Occurred()
{
    static PyObject some{ "some" };
    return fake_py_err ? &some : nullptr;
}
inline void
PyErr_Clear()
{
    fake_py_err.reset();
}
#endif

namespace pybind11 {
using ssize_t = Py_ssize_t;
using size_t = std::size_t;

struct Obj;
using Ref = std::shared_ptr<Obj>;

struct ArrayData
{
    std::shared_ptr<char> owner; // keeps the memory
    char* ptr = nullptr;         // the first element
    ssize_t itemsize = 1;
    std::string format = "B";
    std::vector<ssize_t> shape, strides;
};

struct Obj
{
    enum Kind
    {
        None,
        Bool,
        Int,
        Float,
        Str,
        Inst,
        List,
        Array,
    } kind = None;
    int64_t i = 0;
    uint64_t u = 0; // Int: the value when it is not negative
    double d = 0;
    std::string s;
    std::shared_ptr<void> inst;
    std::type_index type{ typeid(void) };
    Ref keeper; // what the instance is a part of
    std::vector<Ref> list;
    ArrayData arr;
    std::map<std::string, Ref> dict; // dynamic attributes
};

inline Ref
make_none()
{
    return std::make_shared<Obj>();
}

// --- exceptions
class builtin_exception : public std::runtime_error
{
  public:
    using std::runtime_error::runtime_error;
    virtual const char* py_name() const = 0;
};
#define FAKE_BUILTIN(cls, name)                                                                                                             \
    class cls : public builtin_exception                                                                                                    \
    {                                                                                                                                       \
      public:                                                                                                                               \
        using builtin_exception::builtin_exception;                                                                                         \
        cls()                                                                                                                               \
          : builtin_exception("")                                                                                                           \
        {                                                                                                                                   \
        }                                                                                                                                   \
        const char* py_name() const override { return name; }                                                                               \
    };
FAKE_BUILTIN(value_error, "ValueError")
FAKE_BUILTIN(type_error, "TypeError")
FAKE_BUILTIN(key_error, "KeyError")
FAKE_BUILTIN(index_error, "IndexError")
FAKE_BUILTIN(buffer_error, "BufferError")
FAKE_BUILTIN(attribute_error, "AttributeError")
FAKE_BUILTIN(stop_iteration, "StopIteration")
FAKE_BUILTIN(cast_error, "RuntimeError")
FAKE_BUILTIN(reference_cast_error, "TypeError")

class error_already_set : public std::exception
{
  public:
    FakePyErr err;
    error_already_set()
    {
        if (fake_py_err)
            err = *fake_py_err;
        else
            err = { "SystemError", "error_already_set without an error" };
        fake_py_err.reset();
    }
    const char* what() const noexcept override { return err.message.c_str(); }
};
[[noreturn]] inline void
pybind11_fail(const std::string& m)
{
    throw std::runtime_error(m);
}
inline void
set_error(PyObject* t, const char* m)
{
    PyErr_SetString(t, m);
}

enum class return_value_policy : uint8_t
{
    automatic,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal,
};

template<typename T>
T load(const Ref& r);
template<typename T>
Ref to_py(T&& v, return_value_policy p, const Ref& parent);

// --- objects
class handle
{
  public:
    Ref p;
    handle()
      : p(nullptr)
    {
    }
    explicit handle(Ref r)
      : p(std::move(r))
    {
    }
    bool is_none() const { return !p || p->kind == Obj::None; }
    explicit operator bool() const { return p != nullptr; }
    const Ref& ptr() const { return p; }
    bool is(const handle& o) const { return p == o.p || (is_none() && o.is_none()); }
    template<typename T>
    T cast() const
    {
        try {
            return load<T>(p);
        } catch (const reference_cast_error&) {
            throw cast_error("Unable to cast Python instance to C++ type");
        }
    }
    template<typename T>
    explicit operator T() const
    {
        return cast<T>();
    }
};

class object : public handle
{
  public:
    object() = default;
    explicit object(Ref r)
      : handle(std::move(r))
    {
    }
    object(const handle& h)
      : handle(h)
    {
    }
    using handle::cast;
};

class none : public object
{
  public:
    none()
      : object(make_none())
    {
    }
};

class str : public object
{
  public:
    str(const std::string& s = "")
    {
        p = std::make_shared<Obj>();
        p->kind = Obj::Str;
        p->s = s;
    }
    str(const char* s)
      : str(std::string(s))
    {
    }
    explicit str(const handle& h)
      : object(h)
    {
    }
    operator std::string() const { return p->s; }
};

template<typename T>
object
reinterpret_borrow(const handle& h)
{
    return object(h.p);
}

class dict : public object
{
  public:
    std::shared_ptr<std::map<std::string, Ref>> m = std::make_shared<std::map<std::string, Ref>>();
    bool contains(const std::string& k) const { return m->count(k) != 0; }
    bool contains(const char* k) const { return m->count(k) != 0; }
    object operator[](const std::string& k) const
    {
        auto i = m->find(k);
        if (i == m->end())
            throw key_error(k);
        return object(i->second);
    }
    object operator[](const char* k) const { return (*this)[std::string(k)]; }
    object operator[](const object& k) const { return (*this)[k.p->s]; }
    size_t size() const { return m->size(); }
    bool empty() const { return m->empty(); }
    struct iterator
    {
        std::map<std::string, Ref>::iterator i;
        bool operator!=(const iterator& o) const { return i != o.i; }
        iterator& operator++()
        {
            ++i;
            return *this;
        }
        std::pair<object, object> operator*() const { return { str(i->first), object(i->second) }; }
    };
    iterator begin() const { return { m->begin() }; }
    iterator end() const { return { m->end() }; }
};
class kwargs : public dict
{};

class args : public object
{
  public:
    std::vector<Ref> v;
    size_t size() const { return v.size(); }
    object operator[](size_t i) const { return object(v.at(i)); }
};
class list : public object
{
  public:
    list()
    {
        p = std::make_shared<Obj>();
        p->kind = Obj::List;
    }
    size_t size() const { return p->list.size(); }
    template<typename T>
    void append(T&& v)
    {
        p->list.push_back(to_py(std::forward<T>(v), return_value_policy::automatic, nullptr));
    }
    object operator[](size_t i) const { return object(p->list.at(i)); }
};

template<typename T>
object
cast(T&& v, return_value_policy p = return_value_policy::automatic, handle parent = handle())
{
    return object(to_py(std::forward<T>(v), p, parent.p));
}

template<typename T>
bool
isinstance(const handle& h);

class array;
template<typename T>
struct is_array : std::false_type
{};

// --- from and to Python
template<typename T>
struct is_optional : std::false_type
{};
template<typename T>
struct is_optional<std::optional<T>> : std::true_type
{};
template<typename T>
constexpr bool is_handle = std::is_base_of_v<handle, T>;
template<typename T>
constexpr bool is_cstr = std::is_same_v<T, const char*> || std::is_same_v<T, char*>;

template<typename T>
T&
load_instance(const Ref& r)
{
    if (!r || r->kind != Obj::Inst || r->type != std::type_index(typeid(T)))
        throw reference_cast_error("incompatible type");
    return *(T*)r->inst.get();
}

template<typename A>
A
make_array(const Ref& r);

// a holder that yields what a parameter of type P binds to
template<typename P>
struct Arg
{
    using T = std::remove_cv_t<std::remove_reference_t<P>>;
    using Stored = std::conditional_t<is_handle<T> || std::is_arithmetic_v<T> || std::is_same_v<T, std::string> || is_optional<T>::value || is_cstr<T>,
                                      T,
                                      std::conditional_t<std::is_pointer_v<T>, std::remove_cv_t<std::remove_pointer_t<T>>*, T*>>;
    Ref ref; // keeps the object
    Stored v{};
    explicit Arg(const Ref& r)
      : ref(r)
    {
        if constexpr (std::is_same_v<Stored, T> && !std::is_pointer_v<T>)
            v = load<T>(r);
        else if constexpr (is_cstr<T>) {
            if (r && r->kind != Obj::None) {
                if (r->kind != Obj::Str)
                    throw reference_cast_error("incompatible type");
                v = (T)r->s.c_str();
            }
        } else if constexpr (std::is_pointer_v<T>) {
            if (r && r->kind != Obj::None)
                v = &load_instance<std::remove_cv_t<std::remove_pointer_t<T>>>(r);
        } else
            v = &load_instance<T>(r);
    }
    decltype(auto) get()
    {
        if constexpr (std::is_same_v<Stored, T>) {
            if constexpr (std::is_lvalue_reference_v<P>)
                return (v);
            else
                return T(v);
        } else if constexpr (std::is_pointer_v<T>)
            return T(v);
        else if constexpr (std::is_lvalue_reference_v<P>)
            return (*v);
        else
            return T(*v);
    }
};

template<typename T>
T
load(const Ref& r)
{
    using U = std::remove_cv_t<std::remove_reference_t<T>>;
    if constexpr (is_array<U>::value)
        return make_array<U>(r);
    else if constexpr (is_handle<U>) {
        U o;
        o.p = r;
        return o;
    } else if constexpr (is_optional<U>::value) {
        if (!r || r->kind == Obj::None)
            return std::nullopt;
        return load<typename U::value_type>(r);
    } else if constexpr (std::is_same_v<U, bool>) {
        if (!r || r->kind != Obj::Bool)
            throw reference_cast_error("not a bool");
        return r->i != 0;
    } else if constexpr (std::is_integral_v<U>) {
        if (!r || (r->kind != Obj::Int && r->kind != Obj::Bool))
            throw reference_cast_error("not an integer");
        if (r->i < 0) {
            if (!std::is_signed_v<U> || r->i < (int64_t)std::numeric_limits<U>::min())
                throw reference_cast_error("integer out of range");
            return (U)r->i;
        }
        if (r->u > (uint64_t)std::numeric_limits<U>::max())
            throw reference_cast_error("integer out of range");
        return (U)r->u;
    } else if constexpr (std::is_floating_point_v<U>) {
        if (!r || (r->kind != Obj::Float && r->kind != Obj::Int))
            throw reference_cast_error("not a number");
        return r->kind == Obj::Float ? (U)r->d : (U)r->i;
    } else if constexpr (std::is_same_v<U, std::string>) {
        if (!r || r->kind != Obj::Str)
            throw reference_cast_error("not a string");
        return r->s;
    } else
        return load_instance<U>(r);
}

template<typename T>
Ref
to_py(T&& v, return_value_policy p, const Ref& parent)
{
    using U = std::remove_cv_t<std::remove_reference_t<T>>;
    auto o = std::make_shared<Obj>();
    if constexpr (is_handle<U>)
        return v.p ? v.p : make_none();
    else if constexpr (is_optional<U>::value)
        return v ? to_py(*v, p, parent) : make_none();
    else if constexpr (std::is_same_v<U, bool>) {
        o->kind = Obj::Bool;
        o->i = v;
        o->u = v;
    } else if constexpr (std::is_integral_v<U>) {
        o->kind = Obj::Int;
        o->i = (v < 0 || (uint64_t)v <= (uint64_t)INT64_MAX) ? (int64_t)v : 0;
        o->u = (uint64_t)v;
    } else if constexpr (std::is_floating_point_v<U>) {
        o->kind = Obj::Float;
        o->d = v;
    } else if constexpr (std::is_convertible_v<T, std::string>) {
        if constexpr (std::is_pointer_v<U>)
            if (!v)
                return make_none();
        o->kind = Obj::Str;
        o->s = std::string(v);
    } else {
        o->kind = Obj::Inst;
        o->type = std::type_index(typeid(U));
        if constexpr (std::is_enum_v<U>)
            o->i = (int64_t)v;
        if (std::is_lvalue_reference_v<T> && (p == return_value_policy::reference || p == return_value_policy::reference_internal)) {
            o->inst = std::shared_ptr<void>((void*)std::addressof(v), [](void*) {});
            o->keeper = parent;
        } else
            o->inst = std::make_shared<U>(std::forward<T>(v));
    }
    return o;
}

template<typename T>
bool
isinstance(const handle& h)
{
    if constexpr (std::is_same_v<T, str>)
        return h.p && h.p->kind == Obj::Str;
    else if constexpr (is_array<T>::value)
        return h.p && h.p->kind == Obj::Array;
    else
        return h.p && h.p->kind == Obj::Inst && h.p->type == std::type_index(typeid(T));
}

// --- functions
using Call = std::function<Ref(const std::vector<Ref>&, const kwargs&)>;

template<typename F>
struct Sig : Sig<decltype(&F::operator())>
{};
#define FAKE_SIG(quals)                                                                                                                     \
    template<typename R, typename C, typename... A>                                                                                         \
    struct Sig<R (C::*)(A...) quals>                                                                                                        \
    {                                                                                                                                       \
        using Ret = R;                                                                                                                      \
        using Args = std::tuple<A...>;                                                                                                      \
        using Class = C;                                                                                                                    \
    };
FAKE_SIG()
FAKE_SIG(const)
FAKE_SIG(noexcept)
FAKE_SIG(const noexcept)
template<typename R, typename... A>
struct Sig<R (*)(A...)>
{
    using Ret = R;
    using Args = std::tuple<A...>;
};
template<typename R, typename... A>
struct Sig<R (*)(A...) noexcept> : Sig<R (*)(A...)>
{};

template<typename P>
constexpr bool is_kwargs = std::is_same_v<std::remove_cv_t<std::remove_reference_t<P>>, kwargs>;
template<typename P>
constexpr bool is_args = std::is_same_v<std::remove_cv_t<std::remove_reference_t<P>>, args>;

struct arg
{
    std::string name;
    Ref def;
    explicit arg(const char* n)
      : name(n)
    {
    }
    template<typename T>
    arg operator=(T&& v) const
    {
        arg a(*this);
        a.def = to_py(std::forward<T>(v), return_value_policy::automatic, nullptr);
        return a;
    }
    arg& noconvert(bool = true) { return *this; }
};
struct kw_only
{};
template<typename...>
struct call_guard
{};
template<size_t, size_t>
struct keep_alive
{};
struct gil_scoped_release
{
    gil_scoped_release() {}
    ~gil_scoped_release() {}
};
struct gil_scoped_acquire
{
    gil_scoped_acquire() {}
    ~gil_scoped_acquire() {}
};
struct dynamic_attr
{};
struct module_local
{
    module_local(bool = true) {}
};
struct doc
{
    explicit doc(const char*) {}
};
struct buffer_protocol
{};
struct arithmetic
{};

namespace literals {
inline arg
operator""_a(const char* n, std::size_t)
{
    return arg(n);
}
}

struct Extra
{
    std::vector<arg> names;
    return_value_policy policy = return_value_policy::automatic;
    void add(const arg& a) { names.push_back(a); }
    void add(return_value_policy p) { policy = p; }
    template<typename T>
    void add(const T&)
    {
    }
};
template<typename... E>
Extra
extras(const E&... e)
{
    Extra x;
    (x.add(e), ...);
    return x;
}

template<typename P>
struct KwHolder
{
    kwargs v;
    explicit KwHolder(const kwargs& k)
      : v(k)
    {
    }
    kwargs& get() { return v; }
};
template<typename P>
struct ArgsHolder
{
    args v;
    explicit ArgsHolder(std::vector<Ref> r) { v.v = std::move(r); }
    args& get() { return v; }
};

template<typename P>
auto
take(size_t i, const std::vector<Ref>& a, const kwargs& k, const Extra& x, size_t skip)
{
    if constexpr (is_kwargs<P>)
        return KwHolder<P>(k);
    else if constexpr (is_args<P>)
        return ArgsHolder<P>(std::vector<Ref>(a.begin() + std::min(i, a.size()), a.end()));
    else {
        if (i < a.size())
            return Arg<P>(a[i]);
        if (i >= skip && i - skip < x.names.size()) {
            const auto& n = x.names[i - skip];
            if (k.contains(n.name))
                return Arg<P>(k[n.name].p);
            if (n.def)
                return Arg<P>(n.def);
        }
        throw reference_cast_error("missing argument");
    }
}

// calls f with positional and keyword arguments; "skip": how many leading ones are not named (self)
template<typename R, typename... P, typename F, size_t... I>
Ref
invoke(F&& f, const std::vector<Ref>& a, const kwargs& k, const Extra& x, size_t skip, std::tuple<P...>*, std::index_sequence<I...>)
{
    constexpr bool kw = (is_kwargs<P> || ... || false), var = (is_args<P> || ... || false);
    if (!var && a.size() > sizeof...(P) - (kw ? 1 : 0))
        throw type_error("too many arguments");
    if (!kw)
        for (const auto& e : *k.m) {
            bool known = false;
            for (const auto& n : x.names)
                known = known || n.name == e.first;
            if (!known)
                throw type_error("unexpected keyword " + e.first);
        }
    auto holders = [&] {
        try {
            return std::tuple<decltype(take<P>(I, a, k, x, skip))...>{ take<P>(I, a, k, x, skip)... };
        } catch (const reference_cast_error& e) {
            throw type_error(std::string("incompatible function arguments: ") + e.what());
        }
    }();
    const Ref parent = a.empty() ? nullptr : a[0];
    if constexpr (std::is_void_v<R>) {
        f(std::get<I>(holders).get()...);
        return make_none();
    } else {
        return to_py<R>(f(std::get<I>(holders).get()...), x.policy, parent);
    }
}

template<typename F>
Call
wrap(F f, const Extra& x, size_t skip)
{
    using S = Sig<F>;
    using A = typename S::Args;
    return [f, x, skip](const std::vector<Ref>& a, const kwargs& k) mutable {
        return invoke<typename S::Ret>(f, a, k, x, skip, (A*)nullptr, std::make_index_sequence<std::tuple_size_v<A>>{});
    };
}
// a member function becomes a function of the object it is bound for
template<typename T, typename R, typename C, typename... A>
auto
unmember(R (C::*m)(A...))
{
    return [m](T& self, A... a) -> R { return (self.*m)(std::forward<A>(a)...); };
}
template<typename T, typename R, typename C, typename... A>
auto
unmember(R (C::*m)(A...) const)
{
    return [m](const T& self, A... a) -> R { return (self.*m)(std::forward<A>(a)...); };
}
template<typename T, typename R, typename C, typename... A>
auto
unmember(R (C::*m)(A...) const noexcept)
{
    return [m](const T& self, A... a) -> R { return (self.*m)(std::forward<A>(a)...); };
}
template<typename T, typename F>
auto
unmember(F f)
{
    if constexpr (std::is_function_v<F>)
        return &f;
    else
        return f;
}

struct ClassInfo
{
    std::string name;
    std::vector<Call> inits;
    std::map<std::string, std::vector<Call>> methods;
    std::map<std::string, std::pair<Call, Call>> props;
    std::map<std::string, Ref> members; // enum values
    bool dynamic = false;
};

struct Module
{
    std::map<std::string, std::shared_ptr<ClassInfo>> classes;
    std::map<std::type_index, std::shared_ptr<ClassInfo>> by_type;
    std::map<std::string, std::vector<Call>> functions;
    std::map<std::string, Ref> attrs;
};
inline Module&
the_module()
{
    static Module m;
    return m;
}

class module_ : public object
{
  public:
    std::string d;
    std::string& doc() { return d; }
    template<typename F, typename... E>
    module_& def(const char* name, F&& f, const E&... e)
    {
        the_module().functions[name].push_back(wrap(unmember<void>(std::decay_t<F>(std::forward<F>(f))), extras(e...), 0));
        return *this;
    }
    struct Attr
    {
        std::string n;
        template<typename T>
        Attr& operator=(T&& v)
        {
            the_module().attrs[n] = to_py(std::forward<T>(v), return_value_policy::automatic, nullptr);
            return *this;
        }
    };
    Attr attr(const char* n) { return { n }; }
};
using module = module_;

template<typename... A>
struct InitArgs
{};
template<typename F>
struct InitFactory
{
    F f;
};
template<typename... A>
    requires(sizeof...(A) > 0)
InitArgs<A...>
init()
{
    return {};
}
template<typename... A>
    requires(sizeof...(A) == 0)
InitArgs<>
init()
{
    return {};
}
template<typename F>
InitFactory<std::decay_t<F>>
init(F&& f)
{
    return { std::forward<F>(f) };
}

template<typename T, typename... Options>
class class_ : public object
{
  public:
    std::shared_ptr<ClassInfo> info;
    template<typename... E>
    class_(module_&, const char* name, const E&...)
      : info(std::make_shared<ClassInfo>())
    {
        info->name = name;
        info->dynamic = (std::is_same_v<E, dynamic_attr> || ... || false);
        the_module().classes[name] = info;
        the_module().by_type[std::type_index(typeid(T))] = info;
    }
    template<typename... A, typename... E>
    class_& def(InitArgs<A...>, const E&... e)
    {
        auto f = [](A... a) { return std::make_shared<T>(std::forward<A>(a)...); };
        const auto x = extras(e...);
        info->inits.push_back([f, x](const std::vector<Ref>& a, const kwargs& k) mutable { return build(f, a, k, x); });
        return *this;
    }
    template<typename F, typename... E>
    class_& def(const InitFactory<F>& i, const E&... e)
    {
        const auto x = extras(e...);
        info->inits.push_back([f = i.f, x](const std::vector<Ref>& a, const kwargs& k) mutable { return build(f, a, k, x); });
        return *this;
    }
    template<typename F, typename... E>
    class_& def(const char* name, F&& f, const E&... e)
    {
        info->methods[name].push_back(wrap(unmember<T>(std::decay_t<F>(std::forward<F>(f))), extras(e...), 1));
        return *this;
    }
    template<typename F, typename... E>
    class_& def_static(const char* name, F&& f, const E&... e)
    {
        info->methods[name].push_back(wrap(unmember<T>(std::decay_t<F>(std::forward<F>(f))), extras(e...), 0));
        return *this;
    }
    template<typename G, typename S, typename... E>
    class_& def_property(const char* name, const G& g, const S& s, const E&... e)
    {
        auto x = extras(return_value_policy::reference_internal, e...);
        info->props[name] = { wrap(unmember<T>(g), x, 1), wrap(unmember<T>(s), Extra{}, 1) };
        return *this;
    }
    template<typename G, typename... E>
    class_& def_property_readonly(const char* name, const G& g, const E&... e)
    {
        auto x = extras(return_value_policy::reference_internal, e...);
        info->props[name] = { wrap(unmember<T>(g), x, 1), Call() };
        return *this;
    }
    template<typename C, typename D, typename... E>
    class_& def_readwrite(const char* name, D C::*m, const E&...)
    {
        return def_property(
          name, [m](T& self) -> D& { return self.*m; }, [m](T& self, const D& v) { self.*m = v; });
    }
    template<typename C, typename D, typename... E>
    class_& def_readonly(const char* name, const D C::*m, const E&...)
    {
        return def_property_readonly(name, [m](const T& self) -> const D& { return self.*m; });
    }

  private:
    template<typename F>
    static Ref build(F& f, const std::vector<Ref>& a, const kwargs& k, const Extra& x)
    {
        using S = Sig<F>;
        using A = typename S::Args;
        using R = typename S::Ret;
        std::shared_ptr<T> made;
        auto g = [&](auto&&... v) {
            if constexpr (std::is_same_v<R, std::shared_ptr<T>>)
                made = f(std::forward<decltype(v)>(v)...);
            else if constexpr (std::is_same_v<R, std::unique_ptr<T>>)
                made = f(std::forward<decltype(v)>(v)...);
            else if constexpr (std::is_pointer_v<R>)
                made = std::shared_ptr<T>(f(std::forward<decltype(v)>(v)...));
            else
                made = std::shared_ptr<T>(new T(f(std::forward<decltype(v)>(v)...)));
        };
        invoke<void>(g, a, k, x, 0, (A*)nullptr, std::make_index_sequence<std::tuple_size_v<A>>{});
        auto o = std::make_shared<Obj>();
        o->kind = Obj::Inst;
        o->type = std::type_index(typeid(T));
        o->inst = made;
        return o;
    }
};

template<typename T>
class enum_ : public object
{
  public:
    std::shared_ptr<ClassInfo> info;
    template<typename... E>
    enum_(module_&, const char* name, const E&...)
      : info(std::make_shared<ClassInfo>())
    {
        info->name = name;
        the_module().classes[name] = info;
        the_module().by_type[std::type_index(typeid(T))] = info;
    }
    enum_& value(const char* name, T v, const char* = nullptr)
    {
        if (info->members.count(name))
            throw value_error(std::string("element ") + name + " already exists");
        auto r = to_py(T(v), return_value_policy::copy, nullptr);
        r->i = (int64_t)v;
        info->members[name] = r;
        return *this;
    }
    enum_& export_values() { return *this; }
};

// --- conveniences
template<typename... A>
struct overload_cast_t
{
    template<typename R>
    constexpr auto operator()(R (*f)(A...)) const
    {
        return f;
    }
    template<typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const
    {
        return f;
    }
    template<typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const
    {
        return f;
    }
};
template<typename... A>
inline constexpr overload_cast_t<A...> overload_cast{};
inline constexpr std::true_type const_{};
template<typename T>
std::type_index
type_of()
{
    return std::type_index(typeid(T));
}
// what a Python-level getattr, hasattr, len and repr of an object of the module give
inline object
getattr(const handle& h, const char* name)
{
    if (h.p && h.p->kind == Obj::Inst) {
        auto c = the_module().by_type.find(h.p->type);
        if (c != the_module().by_type.end()) {
            auto i = c->second->props.find(name);
            if (i != c->second->props.end())
                return object(i->second.first({ h.p }, {}));
        }
        auto j = h.p->dict.find(name);
        if (j != h.p->dict.end())
            return object(j->second);
    }
    throw attribute_error(name);
}
inline object
getattr(const handle& h, const char* name, const handle& def)
{
    try {
        return getattr(h, name);
    } catch (const attribute_error&) {
        return object(def.p);
    }
}
inline bool
hasattr(const handle& h, const char* name)
{
    try {
        getattr(h, name);
        return true;
    } catch (const attribute_error&) {
        return false;
    }
}
inline size_t
len(const handle& h)
{
    if (h.p && h.p->kind == Obj::List)
        return h.p->list.size();
    if (h.p && h.p->kind == Obj::Str)
        return h.p->s.size();
    if (h.p && h.p->kind == Obj::Inst) {
        auto& m = the_module().by_type.at(h.p->type)->methods;
        if (m.count("__len__"))
            return load<size_t>(m["__len__"][0]({ h.p }, {}));
    }
    throw type_error("object has no len()");
}
inline str
repr(const handle& h)
{
    if (h.is_none())
        return str("None");
    if (h.p->kind == Obj::Str)
        return str("'" + h.p->s + "'");
    if (h.p->kind == Obj::Inst) {
        auto& m = the_module().by_type.at(h.p->type)->methods;
        if (m.count("__repr__"))
            return str(m["__repr__"][0]({ h.p }, {})->s);
    }
    return str("<object>");
}
template<typename... A>
void
print(const A&...)
{
}
template<typename F, typename... E>
auto
cpp_function(F&& f, const E&...)
{
    return std::decay_t<F>(std::forward<F>(f));
}

template<typename A, typename B>
void
implicitly_convertible()
{
}
} // namespace pybind11

#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_MODULE(name, var, ...)                                                                                                     \
    static void fake_pymodule_body(pybind11::module_&);                                                                                     \
    void fake_pymodule_init()                                                                                                               \
    {                                                                                                                                       \
        pybind11::module_ m;                                                                                                                \
        fake_pymodule_body(m);                                                                                                              \
    }                                                                                                                                       \
    void fake_pymodule_body(pybind11::module_& var)
