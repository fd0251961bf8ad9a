#pragma once
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace XmlRpc {
struct XmlRpcException : std::runtime_error { using std::runtime_error::runtime_error; const std::string& getMessage() const { return m; } std::string m; };
class XmlRpcValue {
public:
    enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
    typedef std::map<std::string, XmlRpcValue> ValueStruct;
    typedef ValueStruct::iterator iterator;
    typedef ValueStruct::const_iterator const_iterator;
    XmlRpcValue() = default;
    XmlRpcValue(bool v) : t(TypeBoolean), b(v) {}
    XmlRpcValue(int v) : t(TypeInt), i(v) {}
    XmlRpcValue(double v) : t(TypeDouble), d(v) {}
    XmlRpcValue(const std::string& v) : t(TypeString), s(v) {}
    XmlRpcValue(const char* v) : t(TypeString), s(v) {}
    template<class T> XmlRpcValue(const std::vector<T>& v) : t(TypeArray) { for (const auto& x : v) a.emplace_back(x); }
    const Type& getType() const { return t; }
    bool valid() const { return t != TypeInvalid; }
    int size() const {
        if (t == TypeArray) return int(a.size());
        if (t == TypeStruct) return int(m.size());
        if (t == TypeString) return int(s.size());
        throw XmlRpcException("type error");
    }
    bool hasMember(const std::string& n) const { return t == TypeStruct && m.count(n); }
    XmlRpcValue& operator[](const std::string& n) { if (t == TypeInvalid) t = TypeStruct; need(TypeStruct); return m[n]; }
    XmlRpcValue& operator[](const char* n) { return (*this)[std::string(n)]; }
    const XmlRpcValue& operator[](const std::string& n) const { need(TypeStruct); auto it = m.find(n); if (it == m.end()) throw XmlRpcException("no member " + n); return it->second; }
    const XmlRpcValue& operator[](const char* n) const { return (*this)[std::string(n)]; }
    XmlRpcValue& operator[](int k) { if (t == TypeInvalid) t = TypeArray; need(TypeArray); if (k >= int(a.size())) a.resize(k + 1); return a.at(k); }
    const XmlRpcValue& operator[](int k) const { need(TypeArray); return a.at(k); }
    iterator begin() { need(TypeStruct); return m.begin(); }
    iterator end() { need(TypeStruct); return m.end(); }
    const_iterator begin() const { need(TypeStruct); return m.begin(); }
    const_iterator end() const { need(TypeStruct); return m.end(); }
    operator bool&() { need(TypeBoolean); return b; }
    operator int&() { need(TypeInt); return i; }
    operator double&() { need(TypeDouble); return d; }
    operator std::string&() { need(TypeString); return s; }
    operator const bool&() const { need(TypeBoolean); return b; }
    operator const int&() const { need(TypeInt); return i; }
    operator const double&() const { need(TypeDouble); return d; }
    operator const std::string&() const { need(TypeString); return s; }
    void need(Type x) const { if (t != x) throw XmlRpcException("type error"); }
    Type t = TypeInvalid; bool b = false; int i = 0; double d = 0; std::string s;
    std::vector<XmlRpcValue> a; ValueStruct m;
};
}
