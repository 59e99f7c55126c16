PROPERTY = "C30"
NEEDS = "a compression level beyond 255 given by keyword to the Python binding"
BREAKS = "the level is cut to eight bits instead of being refused: 257 is taken for 1"
PYBIND = True
EDITS = [("python/acquire-zarr-py.cpp", """          if (kwargs.contains("level"))
              settings.set_level(kwargs["level"].cast<uint8_t>());""", """          if (kwargs.contains("level"))
              settings.set_level(
                static_cast<uint8_t>(kwargs["level"].cast<int>()));""")]
DEMO = r'''
using namespace kit;
#include "/repo/python/acquire-zarr-py.cpp"
namespace P = pybind11;
static P::kwargs kw(std::initializer_list<std::pair<const char*, P::Ref>> l)
{
    P::kwargs k;
    for (auto& [n, v] : l)
        (*k.m)[n] = v;
    return k;
}
template<typename T> static P::Ref py_(T v) { return P::cast(std::move(v)).p; }
static P::Ref en(const char* e, const char* n) { return P::the_module().classes[e]->members[n]; }
static P::Ref make(const char* cls, std::vector<P::Ref> a, const P::kwargs& k)
{
    for (auto& f : P::the_module().classes[cls]->inits)
        try {
            return f(a, k);
        } catch (const P::type_error&) {
        }
    throw P::type_error("no constructor");
}
static P::Ref list_(std::vector<P::Ref> v)
{
    auto o = std::make_shared<P::Obj>();
    o->kind = P::Obj::List;
    o->list = std::move(v);
    return o;
}

int main()
{
    fake_pymodule_init();
    for (int level : { 9, 256, 257, 1000, -1 }) {
        bool refused = false;
        try {
            make("CompressionSettings", {}, kw({ { "level", py_(level) } }));
        } catch (const std::exception&) {
            refused = true;
        }
        check(refused == (level != 9), "level " + std::to_string(level) + (refused ? " was refused" : " was accepted"));
    }
}
'''
