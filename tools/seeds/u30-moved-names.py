PROPERTY = "C30"
NEEDS = "a stream made through the Python binding with several dimensions whose names are short enough to be stored inside the string objects"
BREAKS = "the names handed to the library point into strings that moved when the vector holding them grew: wrong or freed memory is read as dimension names"
PYBIND = True
FLAGS = "-fsanitize=address -fno-sanitize-recover=all"
EDITS = [("python/acquire-zarr-py.cpp", "        dimension_names_.resize(dims.size());\n", "        dimension_names_.clear();\n"),
         ("python/acquire-zarr-py.cpp", "            dimension_names_[i] = dim.name();\n", "            dimension_names_.push_back(dim.name());\n"),
         ("python/acquire-zarr-py.cpp", ".name = dimension_names_[i].c_str(),", ".name = dimension_names_.back().c_str(),")]
DEMO = r'''
using namespace kit;
#include "/repo/python/acquire-zarr-py.cpp"
namespace P = pybind11;
static P::kwargs kw(std::initializer_list<std::pair<const char*, P::Ref>> l)
{
    P::kwargs k;
    for (auto& [n, v] : l)
        (*k.m)[n] = v;
    return k;
}
template<typename T> static P::Ref py_(T v) { return P::cast(std::move(v)).p; }
static P::Ref en(const char* e, const char* n) { return P::the_module().classes[e]->members[n]; }
static P::Ref make(const char* cls, std::vector<P::Ref> a, const P::kwargs& k)
{
    for (auto& f : P::the_module().classes[cls]->inits)
        try {
            return f(a, k);
        } catch (const P::type_error&) {
        }
    throw P::type_error("no constructor");
}
static P::Ref list_(std::vector<P::Ref> v)
{
    auto o = std::make_shared<P::Obj>();
    o->kind = P::Obj::List;
    o->list = std::move(v);
    return o;
}

int main()
{
    setenv("ASAN_OPTIONS", "detect_leaks=0", 1);
    fake_pymodule_init();
    auto d = [](const char* n, const char* k, uint32_t a, uint32_t c) {
        return make("Dimension", {}, kw({ { "name", py_(std::string(n)) }, { "kind", en("DimensionType", k) }, { "array_size_px", py_(a) }, { "chunk_size_px", py_(c) }, { "shard_size_chunks", py_(1u) } }));
    };
    auto dims = make("VectorDimension", { list_({ d("t", "TIME", 0, 2), d("c", "CHANNEL", 2, 1), d("y", "SPACE", 4, 2), d("x", "SPACE", 4, 2) }) }, {});
    auto s = make("StreamSettings", {}, kw({ { "store_path", py_(std::string("store")) }, { "dimensions", dims } }));
    {
        auto z = make("ZarrStream", { s }, {});
        P::ArrayData a;
        a.owner = std::shared_ptr<char>((char*)calloc(1, 64), free);
        a.ptr = a.owner.get();
        a.shape = { 4, 4, 4 };
        a.strides = { 16, 4, 1 };
        auto o = std::make_shared<P::Obj>();
        o->kind = P::Obj::Array;
        o->arr = a;
        P::the_module().classes["ZarrStream"]->methods["append"][0]({ z, o }, {});
    }
    std::ifstream f("store/.zattrs");
    auto j = json::parse(f);
    std::string names;
    for (auto& x : j["multiscales"][0]["axes"])
        names += x["name"].get<std::string>();
    check(names == "tcyx", "axes are " + names);
}
'''
