// Runs the control node of the controller manager (its main function as it is) in virtual time, with
// one hardware component whose read takes as long as the script says, and records when each cycle
// starts.
#include <dlfcn.h>
#include <time.h>

#include <atomic>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>

#include "controller_manager/controller_manager.hpp"
#include "hardware_interface/system_interface.hpp"
#include "std_msgs/msg/string.hpp"

#define main node_main
#include "ros2_control_node.cpp"
#undef main
using json = nlohmann::json;
namespace hi = hardware_interface;

static thread_local bool wall = false;   // this thread lives in real time
static bool virt() { return !wall && shim::vtime().enabled.load(); }
extern "C" {
int clock_gettime(clockid_t c, struct timespec * t) noexcept
{
  static auto real = reinterpret_cast<int (*)(clockid_t, timespec *)>(dlsym(RTLD_NEXT, "clock_gettime"));
  if (!virt()) return real(c, t);
  const int64_t n = shim::vtime().now_ns.load();
  t->tv_sec = n / 1000000000, t->tv_nsec = n % 1000000000;
  return 0;
}
int nanosleep(const struct timespec * a, struct timespec * b)
{
  static auto real = reinterpret_cast<int (*)(const timespec *, timespec *)>(dlsym(RTLD_NEXT, "nanosleep"));
  if (!virt()) return real(a, b);
  const int64_t n = a->tv_sec * 1000000000 + a->tv_nsec;
  if (n > 0) shim::vtime().now_ns += n;
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec * a, struct timespec * b)
{
  static auto real = reinterpret_cast<int (*)(clockid_t, int, const timespec *, timespec *)>(dlsym(RTLD_NEXT, "clock_nanosleep"));
  if (!virt()) return real(c, f, a, b);
  const int64_t n = a->tv_sec * 1000000000 + a->tv_nsec - (f == TIMER_ABSTIME ? shim::vtime().now_ns.load() : 0);
  if (n > 0) shim::vtime().now_ns += n;
  return 0;
}
}

static std::atomic<bool> ready{false}, done{false};
static std::vector<int64_t> works;
struct Cycle { int64_t t, p; };
static std::vector<Cycle> cycles;

class Plant : public hi::SystemInterface
{
public:
  hi::return_type read(const rclcpp::Time & t, const rclcpp::Duration & p) override
  {
    if (!ready || done) return hi::return_type::OK;
    cycles.push_back({t.nanoseconds(), p.nanoseconds()});
    if (cycles.size() <= works.size()) shim::vtime().now_ns += works[cycles.size() - 1];
    else done = true;
    return hi::return_type::OK;
  }
  hi::return_type write(const rclcpp::Time &, const rclcpp::Duration &) override { return hi::return_type::OK; }
};

static const char * URDF =
  "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"l\"/><link name=\"m\"/><joint name=\"j\" type=\"continuous\"><parent link=\"l\"/>"
  "<child link=\"m\"/></joint><ros2_control name=\"plant\" type=\"system\"><hardware><plugin>plant</plugin></hardware>"
  "<joint name=\"j\"><command_interface name=\"position\"/><state_interface name=\"position\"/></joint></ros2_control></robot>";

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  wall = true;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  shim::plugins<hi::SystemInterface>()["plant"] = [] { return new Plant; };
  rclcpp::Executor::on_spin() = [](rclcpp::Executor &)
  {
    std_msgs::msg::String msg;
    msg.data = URDF;
    if (!shim::deliver("/robot_description", msg)) { std::cerr << "no subscription to the robot description\n"; _exit(2); }
    ready = true;
    for (int i = 0; !done; ++i)
    {
      if (i > 20000) { std::cerr << "the control loop does not read the hardware\n"; _exit(97); }
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    rclcpp::shutdown();
  };
  std::vector<std::vector<json>> scripts;
  std::string line;
  while (std::getline(in, line))
  {
    json o = json::parse(line);
    if (o["op"] == "NEW" || scripts.empty()) scripts.emplace_back();
    scripts.back().push_back(o);
  }
  for (auto & s : scripts)
  {
    shim::clear_overrides();
    const std::string me = "controller_manager";
    const json & n = s[0];
    shim::set_override<int64_t>(me, "update_rate", n["rate"].get<int64_t>());
    shim::set_override<bool>(me, "overruns.manage", n["manage"].get<bool>());
    shim::set_override<bool>(me, "overruns.print_warnings", false);
    shim::set_override<bool>(me, "use_sim_time", n["mode"] == "sim");
    shim::set_override<bool>(me, "hardware_synchronization.expect_blocking_read_write", n["mode"] == "block");
    shim::set_override<double>(me, "hardware_synchronization.minimum_cycle_time", n["min"].get<double>() / 1e6);
    works.clear();
    for (size_t i = 1; i < s.size(); ++i) works.push_back(s[i]["w"].get<int64_t>());
    cycles.clear();
    shim::vtime().now_ns = 1'000'000'000;
    shim::vtime().enabled = true;
    ready = done = false;
    std::string name = "node";
    char * args[] = {name.data(), nullptr};
    node_main(1, args);
    json e = s[0];
    e["res"] = 0;
    out << e.dump() << "\n";
    for (size_t i = 1; i < s.size(); ++i)
    {
      e = s[i];
      e["gap"] = cycles[i].t - cycles[i - 1].t;
      e["p"] = cycles[i].p;
      out << e.dump() << "\n";
    }
    out << std::flush;
  }
  out.close();
  _exit(0);
}
