#pragma once
#include "pluginlib/class_loader.hpp"
#define SHIM_CAT2(a, b) a##b
#define SHIM_CAT(a, b) SHIM_CAT2(a, b)
namespace shim { inline std::string lookup_name(std::string s) { while (!s.empty() && s[0] == ':') s.erase(0, 1); auto p = s.find("::"); if (p != std::string::npos) s.replace(p, 2, "/"); return s; } }
#define PLUGINLIB_EXPORT_CLASS(D, B) \
  namespace { const bool SHIM_CAT(shim_plugin_, __COUNTER__) = [] { shim::plugins<B>()[shim::lookup_name(#D)] = [] { return static_cast<B *>(new D); }; shim::plugins<B>()[#D] = [] { return static_cast<B *>(new D); }; return true; }(); }
