#pragma once
#include "rclcpp/shim_core.hpp"
namespace pluginlib
{
struct PluginlibException : std::runtime_error { using runtime_error::runtime_error; };
struct LibraryLoadException : PluginlibException { using PluginlibException::PluginlibException; };
struct ClassLoaderException : PluginlibException { using PluginlibException::PluginlibException; };
struct LibraryUnloadException : PluginlibException { using PluginlibException::PluginlibException; };
struct CreateClassException : PluginlibException { using PluginlibException::PluginlibException; };
template <class T> using UniquePtr = std::unique_ptr<T, std::function<void(T *)>>;
}
namespace shim
{
// one registry of factories per plugin base class; filled by drivers and PLUGINLIB_EXPORT_CLASS
template <class Base> std::map<std::string, std::function<Base *()>> & plugins()
{ static auto * m = new std::map<std::string, std::function<Base *()>>; return *m; }
}
namespace pluginlib
{
template <class T> class ClassLoader
{
public:
  ClassLoader(const std::string &, const std::string &, const std::string & = "", const std::vector<std::string> & = {}) {}
  bool isClassAvailable(const std::string & n) { return shim::plugins<T>().count(n) > 0; }
  bool isClassLoaded(const std::string & n) { return isClassAvailable(n); }
  std::vector<std::string> getDeclaredClasses() { std::vector<std::string> v; for (auto & [k, f] : shim::plugins<T>()) v.push_back(k); return v; }
  std::string getClassType(const std::string & n) { return n; }
  std::string getName(const std::string & n) { return n; }
  std::string getBaseClassType() const { return ""; }
  T * createUnmanagedInstance(const std::string & n)
  {
    auto it = shim::plugins<T>().find(n);
    if (it == shim::plugins<T>().end()) throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " does not exist.");
    return it->second();
  }
  std::shared_ptr<T> createSharedInstance(const std::string & n) { return std::shared_ptr<T>(createUnmanagedInstance(n)); }
  UniquePtr<T> createUniqueInstance(const std::string & n) { return UniquePtr<T>(createUnmanagedInstance(n), [](T * p) { delete p; }); }
  void loadLibraryForClass(const std::string &) {}
  int unloadLibraryForClass(const std::string &) { return 0; }
  void refreshDeclaredClasses() {}
};
}  // namespace pluginlib
