#pragma once
#include "rcl_interfaces/msg/parameter_descriptor.hpp"
#include "rcl_interfaces/msg/set_parameters_result.hpp"
#include "rclcpp/clock.hpp"
#include "rclcpp/logging.hpp"
#include "rclcpp/version.h"

namespace rclcpp
{
// ---------------------------------------------------------------- exceptions
namespace exceptions
{
struct InvalidNodeNameError : std::runtime_error { using runtime_error::runtime_error; };
struct ParameterAlreadyDeclaredException : std::runtime_error { using runtime_error::runtime_error; };
struct ParameterNotDeclaredException : std::runtime_error { using runtime_error::runtime_error; };
struct ParameterImmutableException : std::runtime_error { using runtime_error::runtime_error; };
struct InvalidParametersException : std::runtime_error { using runtime_error::runtime_error; };
struct InvalidParameterValueException : std::runtime_error { using runtime_error::runtime_error; };
struct InvalidParameterTypeException : std::runtime_error
{
  InvalidParameterTypeException(const std::string & n, const std::string & m)
  : std::runtime_error("parameter '" + n + "' has invalid type: " + m) {}
};
struct ParameterUninitializedException : std::runtime_error
{
  explicit ParameterUninitializedException(const std::string & n)
  : std::runtime_error("parameter '" + n + "' is not initialized") {}
};
struct RCLError : std::runtime_error { using runtime_error::runtime_error; };
}  // namespace exceptions

// ---------------------------------------------------------------- parameters
enum ParameterType : uint8_t {
  PARAMETER_NOT_SET = 0, PARAMETER_BOOL = 1, PARAMETER_INTEGER = 2, PARAMETER_DOUBLE = 3,
  PARAMETER_STRING = 4, PARAMETER_BYTE_ARRAY = 5, PARAMETER_BOOL_ARRAY = 6,
  PARAMETER_INTEGER_ARRAY = 7, PARAMETER_DOUBLE_ARRAY = 8, PARAMETER_STRING_ARRAY = 9 };

class ParameterTypeException : public std::runtime_error
{
public:
  ParameterTypeException(ParameterType e, ParameterType a)
  : std::runtime_error("expected [" + std::to_string(e) + "] got [" + std::to_string(a) + "]") {}
};

class ParameterValue
{
public:
  ParameterValue() = default;
  explicit ParameterValue(bool v) : v_(v) {}
  explicit ParameterValue(int v) : v_(static_cast<int64_t>(v)) {}
  explicit ParameterValue(int64_t v) : v_(v) {}
  explicit ParameterValue(float v) : v_(static_cast<double>(v)) {}
  explicit ParameterValue(double v) : v_(v) {}
  explicit ParameterValue(const std::string & v) : v_(v) {}
  explicit ParameterValue(const char * v) : v_(std::string(v)) {}
  explicit ParameterValue(const std::vector<uint8_t> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<bool> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<int> & v) : v_(std::vector<int64_t>(v.begin(), v.end())) {}
  explicit ParameterValue(const std::vector<int64_t> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<float> & v) : v_(std::vector<double>(v.begin(), v.end())) {}
  explicit ParameterValue(const std::vector<double> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<std::string> & v) : v_(v) {}
  ParameterType get_type() const { return static_cast<ParameterType>(v_.index()); }
  bool operator==(const ParameterValue & o) const { return v_ == o.v_; }
  bool operator!=(const ParameterValue & o) const { return !(*this == o); }
  template <class T> decltype(auto) get() const
  {
    if constexpr (std::is_same_v<T, bool>) return as<bool>(PARAMETER_BOOL);
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(as<int64_t>(PARAMETER_INTEGER));
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(as<double>(PARAMETER_DOUBLE));
    else if constexpr (std::is_convertible_v<T, std::string>) return std::string(as<std::string>(PARAMETER_STRING));
    else if constexpr (std::is_same_v<T, std::vector<uint8_t>>) return T(as<T>(PARAMETER_BYTE_ARRAY));
    else if constexpr (std::is_same_v<T, std::vector<bool>>) return T(as<T>(PARAMETER_BOOL_ARRAY));
    else if constexpr (std::is_same_v<T, std::vector<std::string>>) return T(as<T>(PARAMETER_STRING_ARRAY));
    else if constexpr (std::is_same_v<T, std::vector<double>>) return T(as<T>(PARAMETER_DOUBLE_ARRAY));
    else if constexpr (std::is_same_v<T, std::vector<float>>)
    { const auto & a = as<std::vector<double>>(PARAMETER_DOUBLE_ARRAY); return T(a.begin(), a.end()); }
    else { const auto & a = as<std::vector<int64_t>>(PARAMETER_INTEGER_ARRAY); return T(a.begin(), a.end()); }
  }
private:
  template <class T> const T & as(ParameterType t) const
  {
    if (auto p = std::get_if<T>(&v_)) return *p;
    throw ParameterTypeException(t, get_type());
  }
  std::variant<std::monostate, bool, int64_t, double, std::string, std::vector<uint8_t>,
    std::vector<bool>, std::vector<int64_t>, std::vector<double>, std::vector<std::string>> v_;
};

class Parameter
{
public:
  Parameter() = default;
  explicit Parameter(const std::string & n) : n_(n) {}
  Parameter(const std::string & n, const ParameterValue & v) : n_(n), v_(v) {}
  template <class T> Parameter(const std::string & n, T v) : n_(n), v_(v) {}
  const std::string & get_name() const { return n_; }
  ParameterType get_type() const { return v_.get_type(); }
  std::string get_type_name() const { return std::to_string(v_.get_type()); }
  const ParameterValue & get_parameter_value() const { return v_; }
  template <class T> decltype(auto) get_value() const
  {
    try { return v_.get<T>(); }
    catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(n_, e.what()); }
  }
  bool as_bool() const { return get_value<bool>(); }
  int64_t as_int() const { return get_value<int64_t>(); }
  double as_double() const { return get_value<double>(); }
  std::string as_string() const { return get_value<std::string>(); }
  std::vector<bool> as_bool_array() const { return get_value<std::vector<bool>>(); }
  std::vector<int64_t> as_integer_array() const { return get_value<std::vector<int64_t>>(); }
  std::vector<double> as_double_array() const { return get_value<std::vector<double>>(); }
  std::vector<std::string> as_string_array() const { return get_value<std::vector<std::string>>(); }
  std::string value_to_string() const { return "?"; }
private:
  std::string n_;
  ParameterValue v_;
};

// ---------------------------------------------------------------- QoS
struct QoSInitialization { int policy; size_t depth; QoSInitialization(int p, size_t d) : policy(p), depth(d) {} };
struct KeepAll : QoSInitialization { KeepAll() : QoSInitialization(1, 0) {} };
struct KeepLast : QoSInitialization { explicit KeepLast(size_t d) : QoSInitialization(0, d) {} };
class QoS
{
public:
  QoS(size_t depth = 10) : depth_(depth) {}  // NOLINT
  template <class Profile> explicit QoS(const QoSInitialization & i, const Profile & = Profile()) : depth_(i.depth) {}
  QoS(const QoSInitialization & i) : depth_(i.depth) {}  // NOLINT
  QoS & reliable() { return *this; }
  QoS & best_effort() { return *this; }
  QoS & transient_local() { return *this; }
  QoS & durability_volatile() { return *this; }
  QoS & keep_last(size_t d) { depth_ = d; return *this; }
  QoS & keep_all() { return *this; }
private:
  size_t depth_;
};
struct SystemDefaultsQoS : QoS {};
struct ServicesQoS : QoS {};
struct SensorDataQoS : QoS {};
struct ParametersQoS : QoS {};
inline constexpr int KEEP_ALL_ = 1;

// ---------------------------------------------------------------- context
using PreShutdownCallback = std::function<void()>;
class PreShutdownCallbackHandle
{
public:
  size_t id = 0;
};
using OnShutdownCallbackHandle = PreShutdownCallbackHandle;
class Context : public std::enable_shared_from_this<Context>
{
public:
  using SharedPtr = std::shared_ptr<Context>;
  PreShutdownCallbackHandle add_pre_shutdown_callback(PreShutdownCallback cb)
  {
    std::lock_guard<std::mutex> g(m_);
    PreShutdownCallbackHandle h; h.id = ++next_; cbs_[h.id] = cb; return h;
  }
  bool remove_pre_shutdown_callback(const PreShutdownCallbackHandle & h)
  { std::lock_guard<std::mutex> g(m_); return cbs_.erase(h.id) > 0; }
  OnShutdownCallbackHandle add_on_shutdown_callback(PreShutdownCallback cb)
  {
    std::lock_guard<std::mutex> g(m_);
    PreShutdownCallbackHandle h; h.id = ++next_; on_[h.id] = cb; return h;
  }
  bool remove_on_shutdown_callback(const OnShutdownCallbackHandle & h)
  { std::lock_guard<std::mutex> g(m_); return on_.erase(h.id) > 0; }
  bool is_valid() const { return valid_; }
  void init() { valid_ = true; }
  bool shutdown(const std::string & = "")
  {
    if (!valid_) return false;
    std::map<size_t, PreShutdownCallback> c, d;
    { std::lock_guard<std::mutex> g(m_); c = cbs_; }
    for (auto & [k, f] : c) f();
    valid_ = false;
    { std::lock_guard<std::mutex> g(m_); d = on_; }
    for (auto & [k, f] : d) f();
    return true;
  }
private:
  std::mutex m_;
  std::map<size_t, PreShutdownCallback> cbs_, on_;
  size_t next_ = 0;
  std::atomic<bool> valid_{true};
};
namespace contexts { Context::SharedPtr get_global_default_context(); }
inline bool ok(Context::SharedPtr c = nullptr) { return (c ? c : contexts::get_global_default_context())->is_valid(); }
inline void init(int, char const * const *) { contexts::get_global_default_context()->init(); }
inline bool shutdown(Context::SharedPtr c = nullptr, const std::string & r = "")
{ return (c ? c : contexts::get_global_default_context())->shutdown(r); }
inline std::vector<std::string> remove_ros_arguments(int argc, char const * const * argv)
{ return std::vector<std::string>(argv, argv + argc); }

// ---------------------------------------------------------------- node options
class NodeOptions
{
public:
  NodeOptions() = default;
  std::vector<std::string> & arguments() { return args_; }
  const std::vector<std::string> & arguments() const { return args_; }
  NodeOptions & arguments(const std::vector<std::string> & a) { args_ = a; return *this; }
  std::vector<Parameter> & parameter_overrides() { return ov_; }
  const std::vector<Parameter> & parameter_overrides() const { return ov_; }
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) { ov_ = p; return *this; }
  template <class T> NodeOptions & append_parameter_override(const std::string & n, const T & v)
  { ov_.emplace_back(n, ParameterValue(v)); return *this; }
  bool use_global_arguments() const { return global_; }
  NodeOptions & use_global_arguments(bool b) { global_ = b; return *this; }
  bool allow_undeclared_parameters() const { return undeclared_; }
  NodeOptions & allow_undeclared_parameters(bool b) { undeclared_ = b; return *this; }
  bool automatically_declare_parameters_from_overrides() const { return auto_; }
  NodeOptions & automatically_declare_parameters_from_overrides(bool b) { auto_ = b; return *this; }
  NodeOptions & enable_logger_service(bool) { return *this; }
  NodeOptions & enable_rosout(bool) { return *this; }
  NodeOptions & use_intra_process_comms(bool) { return *this; }
  NodeOptions & start_parameter_services(bool) { return *this; }
  NodeOptions & start_parameter_event_publisher(bool) { return *this; }
  NodeOptions & clock_type(rcl_clock_type_t) { return *this; }
  NodeOptions & clock_qos(const QoS &) { return *this; }
  NodeOptions & use_clock_thread(bool) { return *this; }
  Context::SharedPtr context() const { return contexts::get_global_default_context(); }
  NodeOptions & context(Context::SharedPtr) { return *this; }
private:
  std::vector<std::string> args_;
  std::vector<Parameter> ov_;
  bool global_ = true, undeclared_ = false, auto_ = false;
};

// ---------------------------------------------------------------- node interfaces
enum class CallbackGroupType { MutuallyExclusive, Reentrant };
class CallbackGroup { public: using SharedPtr = std::shared_ptr<CallbackGroup>; using WeakPtr = std::weak_ptr<CallbackGroup>; };

namespace node_interfaces
{
class OnSetParametersCallbackHandle
{ public: using SharedPtr = std::shared_ptr<OnSetParametersCallbackHandle>; std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> callback; };
class PostSetParametersCallbackHandle { public: using SharedPtr = std::shared_ptr<PostSetParametersCallbackHandle>; };

class NodeBaseInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeBaseInterface>;
  NodeBaseInterface(const std::string & n, const std::string & ns) : name(n), nspace(ns.empty() ? "/" : (ns[0] == '/' ? ns : "/" + ns)) { fq = nspace == "/" ? "/" + name : nspace + "/" + name; }
  const char * get_name() const { return name.c_str(); }
  const char * get_namespace() const { return nspace.c_str(); }
  const char * get_fully_qualified_name() const { return fq.c_str(); }
  Context::SharedPtr get_context() { return contexts::get_global_default_context(); }
  std::atomic_bool & get_associated_with_executor_atomic() { return assoc; }
  std::string name, nspace, fq;
  std::atomic_bool assoc{false};
};
class NodeClockInterface
{ public: using SharedPtr = std::shared_ptr<NodeClockInterface>; Clock::SharedPtr c = std::make_shared<Clock>(RCL_ROS_TIME); Clock::SharedPtr get_clock() { return c; } Clock::ConstSharedPtr get_clock() const { return c; } };
class NodeLoggingInterface
{ public: using SharedPtr = std::shared_ptr<NodeLoggingInterface>; Logger l; Logger get_logger() const { return l; } const char * get_logger_name() const { return l.get_name(); } };

class NodeParametersInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & def,
    const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool ignore_override = false);
  const ParameterValue & declare_parameter(const std::string & n, ParameterType t,
    const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool ignore_override = false);
  void undeclare_parameter(const std::string & n) { std::lock_guard<std::recursive_mutex> g(m); p.erase(n); }
  bool has_parameter(const std::string & n) const { std::lock_guard<std::recursive_mutex> g(m); return p.count(n) > 0; }
  Parameter get_parameter(const std::string & n) const;
  bool get_parameter(const std::string & n, Parameter & out) const;
  std::vector<Parameter> get_parameters(const std::vector<std::string> & names) const
  { std::vector<Parameter> r; for (auto & x : names) r.push_back(get_parameter(x)); return r; }
  rcl_interfaces::msg::SetParametersResult set_one(const Parameter & x);
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & v)
  { std::vector<rcl_interfaces::msg::SetParametersResult> r; for (auto & x : v) r.push_back(set_one(x)); return r; }
  const std::map<std::string, ParameterValue> & get_parameter_overrides() const { return overrides; }
  OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(
    std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> cb)
  { auto h = std::make_shared<OnSetParametersCallbackHandle>(); h->callback = cb; std::lock_guard<std::recursive_mutex> g(m); cbs.push_back(h); return h; }
  PostSetParametersCallbackHandle::SharedPtr add_post_set_parameters_callback(std::function<void(const std::vector<Parameter> &)>)
  { return std::make_shared<PostSetParametersCallbackHandle>(); }
  void remove_on_set_parameters_callback(const OnSetParametersCallbackHandle *) {}
  mutable std::recursive_mutex m;
  std::map<std::string, ParameterValue> p, overrides;
  std::map<std::string, bool> static_type;
  std::vector<std::weak_ptr<OnSetParametersCallbackHandle>> cbs;
  bool allow_undeclared = false;
};
class NodeTopicsInterface { public: using SharedPtr = std::shared_ptr<NodeTopicsInterface>; };
class NodeServicesInterface { public: using SharedPtr = std::shared_ptr<NodeServicesInterface>; };
class NodeTimersInterface { public: using SharedPtr = std::shared_ptr<NodeTimersInterface>; };
class NodeGraphInterface { public: using SharedPtr = std::shared_ptr<NodeGraphInterface>; };
class NodeWaitablesInterface { public: using SharedPtr = std::shared_ptr<NodeWaitablesInterface>; };
class NodeTimeSourceInterface { public: using SharedPtr = std::shared_ptr<NodeTimeSourceInterface>; };
}  // namespace node_interfaces

// ---------------------------------------------------------------- services / topics / timers
class ServiceBase { public: using SharedPtr = std::shared_ptr<ServiceBase>; virtual ~ServiceBase(); std::string name; const char * get_service_name() const { return name.c_str(); } };
template <class SrvT>
class Service : public ServiceBase
{
public:
  using SharedPtr = std::shared_ptr<Service<SrvT>>;
  std::function<void(std::shared_ptr<typename SrvT::Request>, std::shared_ptr<typename SrvT::Response>)> cb;
};
class PublisherBase { public: using SharedPtr = std::shared_ptr<PublisherBase>; virtual ~PublisherBase(); std::string topic; const char * get_topic_name() const { return topic.c_str(); } size_t get_subscription_count() const { return 1; } };
class SubscriptionBase { public: using SharedPtr = std::shared_ptr<SubscriptionBase>; virtual ~SubscriptionBase(); std::string topic; const char * get_topic_name() const { return topic.c_str(); } };
class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  using WeakPtr = std::weak_ptr<TimerBase>;
  std::function<void()> cb;
  std::chrono::nanoseconds period{0};
  std::atomic<bool> canceled{false};
  void cancel() { canceled = true; }
  void reset() { canceled = false; }
  bool is_canceled() { return canceled; }
  void execute_callback() { if (!canceled) cb(); }
};
using WallTimer = TimerBase;

}  // namespace rclcpp

namespace shim
{
// Everything a driver can reach from outside, by (fully expanded) name
struct Registry
{
  std::recursive_mutex m;
  std::map<std::string, std::weak_ptr<rclcpp::ServiceBase>> services;
  std::map<std::string, std::vector<std::weak_ptr<rclcpp::SubscriptionBase>>> subscriptions;
  std::map<std::string, std::function<void(const void *)>> taps;  // per topic observers
  std::vector<std::weak_ptr<rclcpp::TimerBase>> timers;
  std::map<std::string, std::map<std::string, rclcpp::ParameterValue>> overrides;  // by node name
  std::map<std::string, std::weak_ptr<rclcpp::node_interfaces::NodeParametersInterface>> params;
};
Registry & registry();
template <class T> void set_override(const std::string & node, const std::string & name, T v)
{ std::lock_guard<std::recursive_mutex> g(registry().m); registry().overrides[node][name] = rclcpp::ParameterValue(v); }
inline void clear_overrides() { std::lock_guard<std::recursive_mutex> g(registry().m); registry().overrides.clear(); }
std::string expand(const std::string & name, const rclcpp::node_interfaces::NodeBaseInterface & b);
}  // namespace shim

namespace rclcpp
{
template <class MsgT, class A = void>
class Subscription : public SubscriptionBase
{ public: using SharedPtr = std::shared_ptr<Subscription<MsgT>>; std::function<void(std::shared_ptr<MsgT>)> cb; };
template <class MsgT, class A = void>
class Publisher : public PublisherBase
{
public:
  using SharedPtr = std::shared_ptr<Publisher<MsgT>>;
  using ConstSharedPtr = std::shared_ptr<const Publisher<MsgT>>;
  using MessageType = MsgT;
  virtual void publish(const MsgT & m)
  {
    std::function<void(const void *)> tap;
    { std::lock_guard<std::recursive_mutex> g(shim::registry().m); auto it = shim::registry().taps.find(topic); if (it != shim::registry().taps.end()) tap = it->second; }
    if (tap) tap(&m);
  }
  void publish(std::unique_ptr<MsgT> m) { publish(*m); }
};
template <class T> struct WallRate_ {};

// common base of Node and LifecycleNode
class NodeCommon
{
public:
  NodeCommon(const std::string & name, const std::string & ns, const NodeOptions & options);
  virtual ~NodeCommon();
  const char * get_name() const { return base_->get_name(); }
  const char * get_namespace() const { return base_->get_namespace(); }
  const char * get_fully_qualified_name() const { return base_->get_fully_qualified_name(); }
  const std::string & get_effective_namespace() const { return base_->nspace; }
  Logger get_logger() const { return log_->l; }
  Clock::SharedPtr get_clock() { return clk_->c; }
  Clock::ConstSharedPtr get_clock() const { return clk_->c; }
  Time now() const { return clk_->c->now(); }
  const NodeOptions & get_node_options() const { return opts_; }
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() { return base_; }
  node_interfaces::NodeClockInterface::SharedPtr get_node_clock_interface() { return clk_; }
  node_interfaces::NodeLoggingInterface::SharedPtr get_node_logging_interface() { return log_; }
  node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface() { return par_; }
  node_interfaces::NodeTopicsInterface::SharedPtr get_node_topics_interface() { return top_; }
  node_interfaces::NodeServicesInterface::SharedPtr get_node_services_interface() { return srv_; }
  node_interfaces::NodeTimersInterface::SharedPtr get_node_timers_interface() { return tim_; }
  node_interfaces::NodeGraphInterface::SharedPtr get_node_graph_interface() { return gra_; }
  node_interfaces::NodeWaitablesInterface::SharedPtr get_node_waitables_interface() { return wai_; }
  size_t count_publishers(const std::string &) const { return 0; }
  size_t count_subscribers(const std::string &) const { return 0; }
  std::vector<std::string> get_node_names() const { return {}; }

  bool has_parameter(const std::string & n) const { return par_->has_parameter(n); }
  void undeclare_parameter(const std::string & n) { par_->undeclare_parameter(n); }
  Parameter get_parameter(const std::string & n) const { return par_->get_parameter(n); }
  bool get_parameter(const std::string & n, Parameter & p) const { return par_->get_parameter(n, p); }
  template <class T> bool get_parameter(const std::string & n, T & out) const
  {
    Parameter p;
    const bool r = par_->get_parameter(n, p);
    if (r) out = static_cast<T>(p.get_value<T>());
    return r;
  }
  template <class T> bool get_parameter_or(const std::string & n, T & out, const T & alt) const
  { const bool r = get_parameter(n, out); if (!r) out = alt; return r; }
  template <class T> T get_parameter_or(const std::string & n, const T & alt) const
  { T v; get_parameter_or(n, v, alt); return v; }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & n) const { return par_->get_parameters(n); }
  rcl_interfaces::msg::SetParametersResult set_parameter(const Parameter & p)
  { if (!par_->has_parameter(p.get_name()) && !par_->allow_undeclared) throw exceptions::ParameterNotDeclaredException(p.get_name()); return par_->set_one(p); }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & v) { return par_->set_parameters(v); }
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & v, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool ign = false)
  { return par_->declare_parameter(n, v, d, ign); }
  const ParameterValue & declare_parameter(const std::string & n, ParameterType t, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool ign = false)
  { return par_->declare_parameter(n, t, d, ign); }
  template <class T> T declare_parameter(const std::string & n, const T & v, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool ign = false)
  {
    try { return par_->declare_parameter(n, ParameterValue(v), d, ign).template get<T>(); }
    catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(n, e.what()); }
  }
  template <class T> T declare_parameter(const std::string & n, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool ign = false)
  { return par_->declare_parameter(n, ParameterValue(T{}).get_type(), d, ign).template get<T>(); }
  node_interfaces::OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> cb)
  { return par_->add_on_set_parameters_callback(cb); }
  void remove_on_set_parameters_callback(const node_interfaces::OnSetParametersCallbackHandle *) {}

  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType, bool = true) { return std::make_shared<CallbackGroup>(); }

  template <class SrvT, class F>
  std::shared_ptr<Service<SrvT>> create_service(const std::string & name, F && f, const QoS & = QoS(10), CallbackGroup::SharedPtr = nullptr)
  {
    auto s = std::make_shared<Service<SrvT>>();
    s->name = shim::expand(name, *base_);
    s->cb = std::forward<F>(f);
    std::lock_guard<std::recursive_mutex> g(shim::registry().m);
    shim::registry().services[s->name] = s;
    return s;
  }
  template <class MsgT, class F, class... R>
  std::shared_ptr<Subscription<MsgT>> create_subscription(const std::string & topic, const QoS &, F && f, R &&...)
  {
    auto s = std::make_shared<Subscription<MsgT>>();
    s->topic = shim::expand(topic, *base_);
    if constexpr (std::is_invocable_v<F, const MsgT &>) s->cb = [f](std::shared_ptr<MsgT> m) mutable { f(*m); };
    else if constexpr (std::is_invocable_v<F, std::unique_ptr<MsgT>>) s->cb = [f](std::shared_ptr<MsgT> m) mutable { f(std::make_unique<MsgT>(*m)); };
    else s->cb = [f](std::shared_ptr<MsgT> m) mutable { f(m); };
    std::lock_guard<std::recursive_mutex> g(shim::registry().m);
    shim::registry().subscriptions[s->topic].push_back(s);
    return s;
  }
  template <class F> TimerBase::SharedPtr create_wall_timer_ns(std::chrono::nanoseconds p, F && f)
  {
    auto t = std::make_shared<TimerBase>(); t->period = p; t->cb = std::forward<F>(f);
    std::lock_guard<std::recursive_mutex> g(shim::registry().m);
    shim::registry().timers.push_back(t);
    return t;
  }
  template <class Rep, class Per, class F> TimerBase::SharedPtr create_wall_timer(std::chrono::duration<Rep, Per> p, F && f, CallbackGroup::SharedPtr = nullptr, bool = true)
  { return create_wall_timer_ns(std::chrono::duration_cast<std::chrono::nanoseconds>(p), std::forward<F>(f)); }
  template <class Rep, class Per, class F> TimerBase::SharedPtr create_timer(std::chrono::duration<Rep, Per> p, F && f, CallbackGroup::SharedPtr = nullptr)
  { return create_wall_timer_ns(std::chrono::duration_cast<std::chrono::nanoseconds>(p), std::forward<F>(f)); }

protected:
  NodeOptions opts_;
  std::shared_ptr<node_interfaces::NodeBaseInterface> base_;
  std::shared_ptr<node_interfaces::NodeClockInterface> clk_;
  std::shared_ptr<node_interfaces::NodeLoggingInterface> log_;
  std::shared_ptr<node_interfaces::NodeParametersInterface> par_;
  std::shared_ptr<node_interfaces::NodeTopicsInterface> top_ = std::make_shared<node_interfaces::NodeTopicsInterface>();
  std::shared_ptr<node_interfaces::NodeServicesInterface> srv_ = std::make_shared<node_interfaces::NodeServicesInterface>();
  std::shared_ptr<node_interfaces::NodeTimersInterface> tim_ = std::make_shared<node_interfaces::NodeTimersInterface>();
  std::shared_ptr<node_interfaces::NodeGraphInterface> gra_ = std::make_shared<node_interfaces::NodeGraphInterface>();
  std::shared_ptr<node_interfaces::NodeWaitablesInterface> wai_ = std::make_shared<node_interfaces::NodeWaitablesInterface>();
};

class Node : public NodeCommon, public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & o = NodeOptions()) : NodeCommon(name, "", o) {}
  Node(const std::string & name, const std::string & ns, const NodeOptions & o = NodeOptions()) : NodeCommon(name, ns, o) {}
  template <class MsgT> std::shared_ptr<Publisher<MsgT>> create_publisher(const std::string & topic, const QoS &)
  { auto p = std::make_shared<Publisher<MsgT>>(); p->topic = shim::expand(topic, *base_); return p; }
};

// ---------------------------------------------------------------- executors
struct ExecutorOptions {};
class Executor
{
public:
  using SharedPtr = std::shared_ptr<Executor>;
  using WeakPtr = std::weak_ptr<Executor>;
  virtual ~Executor();
  virtual void add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true)
  { std::lock_guard<std::mutex> g(m_); n->assoc = true; nodes_.insert(n.get()); }
  virtual void add_node(std::shared_ptr<Node> n, bool b = true) { add_node(n->get_node_base_interface(), b); }
  virtual void remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true)
  { std::lock_guard<std::mutex> g(m_); n->assoc = false; nodes_.erase(n.get()); }
  virtual void remove_node(std::shared_ptr<Node> n, bool b = true) { remove_node(n->get_node_base_interface(), b); }
  virtual void spin();
  virtual void spin_some() {}
  virtual void spin_some(std::chrono::nanoseconds) {}
  virtual void spin_once(std::chrono::nanoseconds = std::chrono::nanoseconds(-1)) {}
  virtual void cancel() { canceled_ = true; }
  bool is_spinning() { return false; }
  // what a driver wants done while the process "spins"
  static std::function<void(Executor &)> & on_spin();
protected:
  std::mutex m_;
  std::set<void *> nodes_;
  std::atomic<bool> canceled_{false};
};
namespace executors
{
class MultiThreadedExecutor : public Executor { public: MultiThreadedExecutor(const ExecutorOptions & = {}, size_t = 0, bool = false) {} };
class SingleThreadedExecutor : public Executor { public: explicit SingleThreadedExecutor(const ExecutorOptions & = {}) {} };
}  // namespace executors
inline void spin(std::shared_ptr<Node>) {}
class Rate { public: explicit Rate(double) {} bool sleep() { return true; } };
using WallRate = Rate;
}  // namespace rclcpp

#define RMW_QOS_POLICY_HISTORY_KEEP_ALL 1
#define RMW_QOS_POLICY_HISTORY_KEEP_LAST 0
struct rmw_qos_profile_t { int x; };
static const rmw_qos_profile_t rmw_qos_profile_services_default = {0};
static const rmw_qos_profile_t rmw_qos_profile_default = {0};

namespace shim
{
// call a service by name, as a client would; false when the service is not offered
template <class SrvT>
bool call(const std::string & name, std::shared_ptr<typename SrvT::Request> req, std::shared_ptr<typename SrvT::Response> res)
{
  std::shared_ptr<rclcpp::ServiceBase> s;
  { std::lock_guard<std::recursive_mutex> g(registry().m); auto it = registry().services.find(name); if (it != registry().services.end()) s = it->second.lock(); }
  auto t = std::dynamic_pointer_cast<rclcpp::Service<SrvT>>(s);
  if (!t) return false;
  t->cb(req, res);
  return true;
}
template <class MsgT> int deliver(const std::string & topic, const MsgT & msg)
{
  std::vector<std::shared_ptr<rclcpp::SubscriptionBase>> v;
  { std::lock_guard<std::recursive_mutex> g(registry().m); for (auto & w : registry().subscriptions[topic]) if (auto s = w.lock()) v.push_back(s); }
  int n = 0;
  for (auto & s : v) if (auto t = std::dynamic_pointer_cast<rclcpp::Subscription<MsgT>>(s)) { t->cb(std::make_shared<MsgT>(msg)); ++n; }
  return n;
}
template <class MsgT> void tap(const std::string & topic, std::function<void(const MsgT &)> f)
{ std::lock_guard<std::recursive_mutex> g(registry().m); registry().taps[topic] = [f](const void * p) { f(*static_cast<const MsgT *>(p)); }; }
}  // namespace shim
