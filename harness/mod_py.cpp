// Commands that drive the Python binding with a script of Python-level operations, over the stand-in for pybind11.
#include "shim.hh"
#include "worker.hh"

#include "acquire.zarr.h"
#include "miniocpp/fake_s3.h"
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>

#include <fstream>
#include <sys/stat.h>

void
fake_pymodule_init();

namespace {
using worker::json;
using namespace pybind11;

std::map<std::string, Ref> g_vars;

ClassInfo&
class_of(const Ref& r)
{
    if (!r || r->kind != Obj::Inst)
        throw attribute_error("not an instance of a class of the module");
    return *the_module().by_type.at(r->type);
}

Ref
call(std::vector<Call>& overloads, const std::vector<Ref>& a, const kwargs& k)
{
    for (size_t i = 0; i < overloads.size(); ++i)
        try {
            return overloads[i](a, k);
        } catch (const type_error&) {
            if (i + 1 == overloads.size())
                throw;
        }
    throw type_error("no constructor defined");
}

Ref
construct(const std::string& cls, const std::vector<Ref>& a, const kwargs& k)
{
    auto i = the_module().classes.find(cls);
    if (i == the_module().classes.end())
        throw attribute_error("module has no attribute " + cls);
    return call(i->second->inits, a, k);
}

Ref
getattr(const Ref& r, const std::string& name)
{
    auto& c = class_of(r);
    auto i = c.props.find(name);
    if (i != c.props.end())
        return i->second.first({ r }, {});
    auto j = r->dict.find(name);
    if (j != r->dict.end())
        return j->second;
    throw attribute_error(c.name + " has no attribute " + name);
}

void
setattr(const Ref& r, const std::string& name, const Ref& v)
{
    auto& c = class_of(r);
    auto i = c.props.find(name);
    if (i != c.props.end()) {
        if (!i->second.second)
            throw attribute_error("can't set attribute " + name);
        i->second.second({ r, v }, {});
    } else if (c.dynamic)
        r->dict[name] = v;
    else
        throw attribute_error(c.name + " has no attribute " + name);
}

Ref
call_method(const Ref& r, const std::string& name, std::vector<Ref> a, const kwargs& k = {})
{
    auto& c = class_of(r);
    auto i = c.methods.find(name);
    if (i == c.methods.end())
        throw attribute_error(c.name + " has no method " + name);
    a.insert(a.begin(), r);
    return call(i->second, a, k);
}

Ref decode(const json& j);

kwargs
decode_kw(const json& j)
{
    kwargs k;
    for (auto it = j.begin(); it != j.end(); ++it)
        (*k.m)[it.key()] = decode(it.value());
    return k;
}
std::vector<Ref>
decode_list(const json& j)
{
    std::vector<Ref> v;
    for (const auto& e : j)
        v.push_back(decode(e));
    return v;
}

// {"file", "off", "len": the memory; "at": where element 0 is; "shape", "strides", "item"}
Ref
decode_array(const json& j)
{
    ArrayData a;
    const size_t len = j["len"].get<size_t>(), off = j["off"].get<size_t>();
    a.owner = std::shared_ptr<char>((char*)malloc(len ? len : 1), free); // exact size, so that reads outside are seen
    if (len) {
        std::ifstream f(j["file"].get<std::string>(), std::ios::binary);
        f.seekg((std::streamoff)off);
        if (!f.read(a.owner.get(), (std::streamsize)len))
            throw std::logic_error("array beyond the data file");
    }
    a.ptr = a.owner.get() + j["at"].get<ssize_t>();
    a.itemsize = j["item"].get<ssize_t>();
    a.format = j["format"].get<std::string>();
    a.shape = j["shape"].get<std::vector<ssize_t>>();
    a.strides = j["strides"].get<std::vector<ssize_t>>();
    auto o = std::make_shared<Obj>();
    o->kind = Obj::Array;
    o->arr = std::move(a);
    return o;
}

Ref
decode(const json& j)
{
    if (j.is_null())
        return make_none();
    if (j.is_boolean())
        return to_py(j.get<bool>(), return_value_policy::copy, nullptr);
    if (j.is_number_unsigned())
        return to_py(j.get<uint64_t>(), return_value_policy::copy, nullptr);
    if (j.is_number_integer())
        return to_py(j.get<int64_t>(), return_value_policy::copy, nullptr);
    if (j.is_number_float())
        return to_py(j.get<double>(), return_value_policy::copy, nullptr);
    if (j.is_string())
        return to_py(worker::unhex(j.get<std::string>()), return_value_policy::copy, nullptr);
    if (j.is_array()) {
        auto o = std::make_shared<Obj>();
        o->kind = Obj::List;
        o->list = decode_list(j);
        return o;
    }
    if (j.contains("array"))
        return decode_array(j["array"]);
    if (j.contains("enum")) {
        auto i = the_module().classes.find(j["enum"]);
        if (i == the_module().classes.end() || !i->second->members.count(j["name"]))
            throw attribute_error("no such enum member");
        return i->second->members[j["name"]];
    }
    if (j.contains("new"))
        return construct(j["new"], decode_list(j.value("args", json::array())), decode_kw(j.value("kw", json::object())));
    if (j.contains("var")) {
        auto at = g_vars.find(j["var"]);
        if (at == g_vars.end())
            throw attribute_error("name is not defined");
        Ref r = at->second;
        for (const auto& p : j.value("path", json::array()))
            r = p.is_string() ? getattr(r, p) : call_method(r, "__getitem__", { decode(p) });
        return r;
    }
    throw std::logic_error("bad value");
}

json
encode(const Ref& r)
{
    if (!r)
        return nullptr;
    switch (r->kind) {
        case Obj::None:
            return nullptr;
        case Obj::Bool:
            return r->i != 0;
        case Obj::Int:
            return r->i < 0 ? json(r->i) : json(r->u);
        case Obj::Float:
            return r->d;
        case Obj::Str:
            return worker::hex(r->s.data(), r->s.size());
        case Obj::List: {
            json l = json::array();
            for (const auto& e : r->list)
                l.push_back(encode(e));
            return l;
        }
        default:
            break;
    }
    auto& c = class_of(r);
    for (const auto& [n, v] : c.members)
        if (v->i == r->i)
            return { { "enum", c.name }, { "name", n }, { "value", r->i } };
    if (c.methods.count("__len__")) {
        json l = json::array();
        const size_t n = call_method(r, "__len__", {})->u;
        for (size_t i = 0; i < n; ++i)
            l.push_back(encode(call_method(r, "__getitem__", { to_py((uint64_t)i, return_value_policy::copy, nullptr) })));
        return l;
    }
    json o = json::object();
    for (const auto& [n, p] : c.props)
        o[n] = encode(p.first({ r }, {}));
    return { { "class", c.name }, { "props", o } };
}

void
dump_s3(const std::string& dir)
{
    auto& sv = fakes3::Server::get();
    json objs = json::array();
    mkdir(dir.c_str(), 0755);
    int n = 0;
    std::lock_guard lock(sv.mutex);
    for (const auto& [b, os] : sv.buckets)
        for (const auto& [k, v] : os) {
            const std::string f = dir + "/" + std::to_string(n++);
            const std::string bytes = std::string(v);
            std::ofstream(f, std::ios::binary).write(bytes.data(), (std::streamsize)bytes.size());
            objs.push_back({ { "bucket", b }, { "key", worker::hex(k.data(), k.size()) }, { "file", f } });
        }
    worker::emit({ { "s", "s3dump" }, { "objects", objs } });
}

// runs one step; what it raises becomes its result
void
step(const json& st)
{
    const std::string op = st["s"];
    json res = { { "s", op }, { "n", st.value("n", -1) } };
    try {
        try {
            if (op == "let")
                g_vars[st["var"]] = decode(st["value"]);
            else if (op == "set")
                setattr(decode(st["on"]), st["attr"], decode(st["value"]));
            else if (op == "get")
                res["value"] = encode(decode(st["value"]));
            else if (op == "call")
                res["value"] = encode(call_method(decode(st["on"]), st["method"], decode_list(st["args"])));
            else if (op == "func") {
                auto i = the_module().functions.find(st["name"]);
                if (i == the_module().functions.end())
                    throw attribute_error("no such function");
                res["value"] = encode(call(i->second, decode_list(st.value("args", json::array())), decode_kw(st.value("kw", json::object()))));
            } else if (op == "del")
                g_vars.erase(st["var"].get<std::string>());
            else if (op == "fail") { // from now on calls of these classes fail
                shim::Rule r;
                r.ops = st["ops"].get<uint32_t>();
                r.count = -1;
                shim::set_rules({ r });
            } else if (op == "clevel") // the level as the C API sees it
                res["value"] = (int)Zarr_get_log_level();
            else if (op == "s3dump") {
                dump_s3(st["dir"]);
                return;
            } else if (op == "enums") {
                json all = json::object();
                for (const auto& [n, c] : the_module().classes)
                    for (const auto& [m, v] : c->members)
                        all[n][m] = v->i;
                res["value"] = all;
            } else
                throw std::logic_error("unknown step " + op);
            res["raised"] = nullptr;
        } catch (const reference_cast_error& e) {
            throw cast_error(e.what());
        }
    } catch (const error_already_set& e) {
        res["raised"] = e.err.type;
        res["what"] = e.err.message;
    } catch (const builtin_exception& e) {
        res["raised"] = e.py_name();
        res["what"] = e.what();
    } catch (const std::bad_alloc& e) {
        res["raised"] = "MemoryError";
    } catch (const std::logic_error& e) {
        throw;
    } catch (const std::exception& e) {
        res["raised"] = "RuntimeError";
        res["what"] = e.what();
    }
    worker::emit(res);
}

void
python(const json& c)
{
    worker::setup_shim(c);
    if (c.contains("s3")) {
        auto& sv = fakes3::Server::get();
        for (const auto& b : c["s3"]["buckets"])
            sv.buckets[b.get<std::string>()];
        for (const auto& a : c["s3"].value("accounts", json::array())) {
            fakes3::Account acc{ worker::unhex(a["host"]), worker::unhex(a["key"]), worker::unhex(a["secret"]), a["https"].get<bool>(), {} };
            for (const auto& b : a["buckets"])
                acc.buckets.insert(b.get<std::string>());
            sv.accounts.push_back(acc);
        }
    }
    fake_pymodule_init();
    for (const auto& st : c["steps"])
        step(st);
    g_vars.clear();
    worker::emit({ { "s", "end" } });
}

worker::Register r1("python", python);
} // namespace
