#pragma once
// Stand-in for the DRAMUtils package (not available offline): the declarations DRAMPower uses, plain data only.
#include <variant>
#include "standards/MemSpecDDR4.h"
#include "standards/MemSpecDDR5.h"
#include "standards/MemSpecLPDDR4.h"
#include "standards/MemSpecLPDDR5.h"
#include "standards/MemSpecLPDDR6.h"
namespace DRAMUtils::MemSpec {
class MemSpecVariant {
    std::variant<MemSpecDDR4, MemSpecDDR5, MemSpecLPDDR4, MemSpecLPDDR5, MemSpecLPDDR6> value;
public:
    MemSpecVariant() = default;
    template <class T> MemSpecVariant(const T& t) : value(t) {}
    const auto& getVariant() const { return value; }
    auto& getVariant() { return value; }
};
}
