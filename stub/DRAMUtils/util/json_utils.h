#pragma once
// Stand-in for the DRAMUtils package (not available offline): the declarations DRAMPower uses, plain data only.
#include <initializer_list>
#include <iostream>
#include <numeric>
#include <optional>
#include <string>
#include <variant>
#include <vector>
namespace nlohmann {
// opaque document: nothing is specified about it
class json {
public:
    json() {}
    json(double) {}
    json(const char*) {}
    json(const std::string&) {}
    json(std::initializer_list<json>) {}
    static json array() { return json(); }
    template <class K> json& operator[](const K&) { return *this; }
    void push_back(const json&) {}
};
}
using json_t = nlohmann::json;
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...)
