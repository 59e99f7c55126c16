#pragma once
#include "pybind11.h"
namespace pybind11 {
struct buffer_info
{
    void* ptr = nullptr;
    ssize_t itemsize = 0;
    ssize_t size = 0;
    std::string format;
    ssize_t ndim = 0;
    std::vector<ssize_t> shape, strides;
    bool readonly = false;
};
class dtype : public object
{
  public:
    ssize_t size_ = 1;
    char k_ = 'u';
    ssize_t itemsize() const { return size_; }
    char kind() const { return k_; }
};
class buffer : public object
{
  public:
    buffer() = default;
    explicit buffer(Ref r)
      : object(std::move(r))
    {
    }
    buffer_info request(bool = false) const
    {
        const auto& a = p->arr;
        buffer_info b;
        b.ptr = a.ptr;
        b.itemsize = a.itemsize;
        b.size = 1;
        for (auto s : a.shape)
            b.size *= s;
        b.format = a.format;
        b.ndim = (ssize_t)a.shape.size();
        b.shape = a.shape;
        b.strides = a.strides;
        return b;
    }
};
namespace detail_fake {
inline bool
contiguous(const ArrayData& a, bool c)
{
    ssize_t want = a.itemsize;
    const size_t n = a.shape.size();
    for (auto s : a.shape)
        if (s == 0)
            return true;
    for (size_t j = 0; j < n; ++j) {
        const size_t i = c ? n - 1 - j : j;
        if (a.shape[i] != 1) {
            if (a.strides[i] != want)
                return false;
            want *= a.shape[i];
        }
    }
    return true;
}
inline Ref
copy(const ArrayData& a, bool c)
{
    ArrayData b;
    b.itemsize = a.itemsize;
    b.format = a.format;
    b.shape = a.shape;
    const size_t n = a.shape.size();
    b.strides.resize(n);
    ssize_t bytes = a.itemsize;
    for (size_t j = 0; j < n; ++j) {
        const size_t i = c ? n - 1 - j : j;
        b.strides[i] = bytes;
        bytes *= a.shape[i];
    }
    b.owner = std::shared_ptr<char>((char*)malloc(bytes ? bytes : 1), free);
    b.ptr = b.owner.get();
    if (bytes) {
        std::vector<ssize_t> at(n, 0);
        for (;;) {
            ssize_t x = 0, y = 0;
            for (size_t i = 0; i < n; ++i) {
                x += at[i] * a.strides[i];
                y += at[i] * b.strides[i];
            }
            memcpy(b.ptr + y, a.ptr + x, (size_t)a.itemsize);
            size_t i = n;
            while (i > 0 && ++at[i - 1] == a.shape[i - 1])
                at[--i] = 0;
            if (i == 0)
                break;
        }
    }
    auto o = std::make_shared<Obj>();
    o->kind = Obj::Array;
    o->arr = std::move(b);
    return o;
}
}
class array : public buffer
{
  public:
    enum
    {
        c_style = 1,
        f_style = 2,
        forcecast = 16,
    };
    array() = default;
    explicit array(Ref r)
      : buffer(std::move(r))
    {
    }
    static array ensure(const handle& h, int flags = 0)
    {
        if (!h.p || h.p->kind != Obj::Array)
            return array();
        if (((flags & c_style) && !detail_fake::contiguous(h.p->arr, true)) || ((flags & f_style) && !detail_fake::contiguous(h.p->arr, false)))
            return array(detail_fake::copy(h.p->arr, flags & c_style));
        return array(h.p);
    }
    static bool check_(const handle& h) { return h.p && h.p->kind == Obj::Array; }
    ssize_t size() const { return request().size; }
    ssize_t itemsize() const { return p->arr.itemsize; }
    ssize_t nbytes() const { return size() * itemsize(); }
    ssize_t ndim() const { return (ssize_t)p->arr.shape.size(); }
    const ssize_t* shape() const { return p->arr.shape.data(); }
    ssize_t shape(ssize_t i) const { return p->arr.shape.at((size_t)i); }
    const ssize_t* strides() const { return p->arr.strides.data(); }
    ssize_t strides(ssize_t i) const { return p->arr.strides.at((size_t)i); }
    const void* data() const { return p->arr.ptr; }
    void* mutable_data() { return p->arr.ptr; }
    int flags() const
    {
        return (detail_fake::contiguous(p->arr, true) ? c_style : 0) | (detail_fake::contiguous(p->arr, false) ? f_style : 0);
    }
    pybind11::dtype dtype() const
    {
        pybind11::dtype d;
        d.size_ = p->arr.itemsize;
        return d;
    }
};
template<>
struct is_array<array> : std::true_type
{};
template<typename A>
A
make_array(const Ref& r)
{
    A a = A::ensure(handle(r), 0);
    if (!a)
        throw reference_cast_error("not an array");
    return a;
}
}
