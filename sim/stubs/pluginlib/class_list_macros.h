#pragma once
#include "../simros.h"
namespace simros { struct ClassReg { ClassReg(const char* base, const char* cls, std::function<void*()> f); }; }
#define SIMROS_CAT2(a, b) a##b
#define SIMROS_CAT(a, b) SIMROS_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(cls, base) \
  namespace { ::simros::ClassReg SIMROS_CAT(simros_reg_, __COUNTER__)(#base, #cls, []() -> void* { return static_cast<base*>(new cls()); }); }
