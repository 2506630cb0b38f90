#pragma once
#include "pal_statistics/pal_statistics_utils.hpp"
namespace pal_statistics
{
class StatisticsRegistry
{
public:
  template <class T> IdType registerVariable(const std::string & n, const T * v, RegistrationsRAII * b = nullptr, bool = true)
  { return put(n, [v]() { return static_cast<double>(*v); }, b); }
  IdType registerFunction(const std::string & n, const std::function<double()> & f, RegistrationsRAII * b = nullptr, bool = true) { return put(n, f, b); }
  void unregisterVariable(const std::string & n, RegistrationsRAII * = nullptr)
  { std::lock_guard<std::recursive_mutex> g(*m_); for (auto it = t_->begin(); it != t_->end();) it = it->second.first == n ? t_->erase(it) : std::next(it); }
  void publishAsync() {}
  void publish() {}
  bool has(const std::string & n) { std::lock_guard<std::recursive_mutex> g(*m_); for (auto & [k, v] : *t_) if (v.first == n) return true; return false; }
  std::optional<double> value(const std::string & n)
  { std::lock_guard<std::recursive_mutex> g(*m_); std::optional<double> r; for (auto & [k, v] : *t_) if (v.first == n) r = v.second(); return r; }
  void clear() { std::lock_guard<std::recursive_mutex> g(*m_); t_->clear(); }
private:
  IdType put(const std::string & n, std::function<double()> f, RegistrationsRAII * b)
  { std::lock_guard<std::recursive_mutex> g(*m_); const IdType id = ++next_; (*t_)[id] = {n, f}; if (b) b->add({t_, m_, id}); return id; }
  std::shared_ptr<std::map<IdType, std::pair<std::string, std::function<double()>>>> t_ = std::make_shared<std::map<IdType, std::pair<std::string, std::function<double()>>>>();
  std::shared_ptr<std::recursive_mutex> m_ = std::make_shared<std::recursive_mutex>();
  IdType next_ = 0;
};
inline std::shared_ptr<StatisticsRegistry> getRegistry(const std::string & key, bool clear = false)
{
  static auto * all = new std::map<std::string, std::shared_ptr<StatisticsRegistry>>;
  static auto * m = new std::mutex;
  std::lock_guard<std::mutex> g(*m);
  if (clear) { for (auto & [k, r] : *all) r->clear(); return nullptr; }
  auto & r = (*all)[key];
  if (!r) r = std::make_shared<StatisticsRegistry>();
  return r;
}
template <class T> inline IdType customRegister(StatisticsRegistry & r, const std::string & n, const T * v, RegistrationsRAII * b, bool e)
{ return r.registerVariable(n, v, b, e); }
inline IdType customRegister(StatisticsRegistry & r, const std::string & n, const std::function<double()> & f, RegistrationsRAII * b, bool e)
{ return r.registerFunction(n, f, b, e); }
template <class T> IdType registerEntity_(const std::string & key, const std::string & n, const T & v, RegistrationsRAII * b = nullptr, bool e = true)
{
  auto r = getRegistry(key);
  if constexpr (std::is_pointer_v<T>) return customRegister(*r, n, v, b, e);
  else return customRegister(*r, n, std::function<double()>(v), b, e);
}
}  // namespace pal_statistics
#define REGISTER_ENTITY(KEY, ID, ...) pal_statistics::registerEntity_(KEY, ID, __VA_ARGS__)
#define UNREGISTER_ENTITY(KEY, ID, ...) pal_statistics::getRegistry(KEY)->unregisterVariable(ID)
#define CLEAR_ALL_REGISTRIES() pal_statistics::getRegistry("", true)
#define INITIALIZE_REGISTRY(node, topic, KEY) (void)pal_statistics::getRegistry(KEY)
#define START_PUBLISH_THREAD(KEY) (void)pal_statistics::getRegistry(KEY)
#define PUBLISH_ASYNC_STATISTICS(KEY) pal_statistics::getRegistry(KEY)->publishAsync()
#define PUBLISH_STATISTICS(KEY) pal_statistics::getRegistry(KEY)->publish()
