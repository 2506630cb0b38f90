// Drives interface handles, loans and the value accessors of components.  Values are integer codes:
// a double of code n is n + 2^-30, a float n + 0.5; a whole number n shows as n + 500000000.
#include <nlohmann/json.hpp>

#include <atomic>
#include <chrono>
#include <cmath>
#include <fstream>
#include <map>
#include <memory>
#include <thread>

#include "hardware_interface/handle.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "hardware_interface/types/hardware_component_params.hpp"
#include "rclcpp/rclcpp.hpp"
using json = nlohmann::json;
using namespace hardware_interface;

static const int64_t NAN_ = 2000000000, BUSY = 1999999999, THREW = 1999999998, ODD = 1999999997;
static const double EPS = std::ldexp(1.0, -30);
template <class T> T dec(int64_t n)
{
  if constexpr (std::is_same_v<T, double>) return n == NAN_ ? std::nan("") : static_cast<double>(n) + EPS;
  else if constexpr (std::is_same_v<T, float>) return n == NAN_ ? std::nanf("") : static_cast<float>(n) + 0.5f;
  else if constexpr (std::is_same_v<T, bool>) return n != 0;
  else return static_cast<T>(static_cast<int32_t>(n));
}
template <class T> int64_t enc(T v)
{
  if constexpr (std::is_floating_point_v<T>)
  {
    if (std::isnan(v)) return NAN_;
    const double f = std::is_same_v<T, double> ? EPS : 0.5, x = static_cast<double>(v);
    if (std::fabs(x) > 1e9) return ODD;
    if (std::floor(x) + f == x) return static_cast<int64_t>(std::floor(x));
    if (std::floor(x) == x) return static_cast<int64_t>(x) + 500000000;
    return ODD;
  }
  else if constexpr (std::is_same_v<T, uint32_t>) return static_cast<int32_t>(v);
  else return static_cast<int64_t>(v);
}
template <class F> auto typed(const std::string & t, F && f)
{
  if (t == "float32") return f(float{});
  if (t == "bool") return f(bool{});
  if (t == "uint8") return f(uint8_t{});
  if (t == "int8") return f(int8_t{});
  if (t == "uint16") return f(uint16_t{});
  if (t == "int16") return f(int16_t{});
  if (t == "uint32") return f(uint32_t{});
  if (t == "int32") return f(int32_t{});
  return f(double{});
}
struct Comp : SystemInterface
{
  std::vector<InterfaceDescription> us, uc;
  std::vector<InterfaceDescription> export_unlisted_state_interface_descriptions() override { return us; }
  std::vector<InterfaceDescription> export_unlisted_command_interface_descriptions() override { return uc; }
  return_type read(const rclcpp::Time &, const rclcpp::Duration &) override { return return_type::OK; }
  return_type write(const rclcpp::Time &, const rclcpp::Duration &) override { return return_type::OK; }
};
struct Obj
{
  std::string k, own;  // own: name of the type it was made with
  std::shared_ptr<Handle> h;
  std::shared_ptr<StateInterface> s;
  std::shared_ptr<CommandInterface> c;
  Handle & get() { return h ? *h : s ? static_cast<Handle &>(*s) : static_cast<Handle &>(*c); }
};
struct Loan
{
  std::unique_ptr<LoanedStateInterface> s;
  std::unique_ptr<LoanedCommandInterface> c;
  std::shared_ptr<int> freed = std::make_shared<int>(0);
};
struct World
{
  std::map<int, double> cell;  // addresses stay
  std::map<int, Obj> o;
  std::map<int, Loan> l;
  std::shared_ptr<Comp> comp;
};
static World * w;

struct Hold
{
  std::thread t;
  std::atomic<int> st{0};
  void start(std::shared_mutex & m, bool excl)
  {
    t = std::thread([this, &m, excl] {
      if (excl) m.lock(); else m.lock_shared();
      st = 1;
      while (st != 2) std::this_thread::sleep_for(std::chrono::microseconds(50));
      if (excl) m.unlock(); else m.unlock_shared();
    });
    while (st != 1) std::this_thread::sleep_for(std::chrono::microseconds(20));
  }
  void end() { st = 2, t.join(); }
};
static std::map<int, std::unique_ptr<Hold>> held;

template <class T> int64_t opt(const std::optional<T> & v) { return v ? enc<T>(*v) : BUSY; }
static int64_t get(Handle & h, const std::string & t, const std::string & m)
{
  return typed(t, [&](auto x) -> int64_t {
    using T = decltype(x);
    try
    {
      if (m == "opt") return opt<T>(h.get_optional<T>());
      if (m == "lock")
      {
        std::shared_lock<std::shared_mutex> l(h.get_mutex(), std::try_to_lock);
        return opt<T>(h.get_optional<T>(l));
      }
      T v = dec<T>(77);
      const bool ok = h.get_value(v, m == "wait");
      if (!ok) return enc<T>(v) == enc<T>(dec<T>(77)) ? BUSY : ODD;
      return enc<T>(v);
    }
    catch (const std::exception &)
    {
      return THREW;
    }
  });
}
static int64_t set(Handle & h, const std::string & t, int64_t v, const std::string & m)
{
  return typed(t, [&](auto x) -> int64_t {
    using T = decltype(x);
    try
    {
      if (m == "try") return h.set_value(dec<T>(v)) ? 1 : 0;
      if (m == "lock")
      {
        std::unique_lock<std::shared_mutex> l(h.get_mutex(), std::try_to_lock);
        return h.set_value(l, dec<T>(v)) ? 1 : 0;
      }
      return h.set_value(dec<T>(v), m == "wait") ? 1 : 0;
    }
    catch (const std::exception &)
    {
      return THREW;
    }
  });
}
static json show()
{
  json o = json::array(), l = json::array(), c = json::array();
  for (auto & [i, x] : w->o)
  {
    auto & h = x.get();
    json e = {{"i", i}, {"pre", h.get_prefix_name()}, {"nm", h.get_interface_name()}, {"full", h.get_name()},
              {"t", h.get_data_type().to_string()}, {"ok", h.is_valid()}, {"ptr", static_cast<bool>(h)},
              {"v", get(h, h.get_data_type().to_string(), "opt")}};
    e["il"] = x.c ? x.c->is_limited() : false;
    o.push_back(e);
  }
  for (auto & [i, x] : w->l)
  {
    json e = {{"l", i}, {"freed", *x.freed}, {"on", x.s || x.c}};
    if (x.s || x.c)
    {
      const std::string t = (x.s ? x.s->get_data_type() : x.c->get_data_type()).to_string();
      e["full"] = x.s ? x.s->get_name() : x.c->get_name();
      e["v"] = typed(t, [&](auto y) -> int64_t {
        using T = decltype(y);
        try { return opt<T>(x.s ? x.s->get_optional<T>() : x.c->get_optional<T>()); } catch (const std::exception &) { return THREW; }
      });
    }
    else e["full"] = "", e["v"] = 0;
    l.push_back(e);
  }
  for (auto & [i, x] : w->cell) c.push_back({{"c", i}, {"v", enc(x)}});
  return {{"o", o}, {"l", l}, {"c", c}};
}
// a new object from a constructor call
template <class... A> bool make(Obj & x, A &&... a)
{
  try
  {
    if (x.k == "H") x.h = std::make_shared<Handle>(std::forward<A>(a)...);
    else if (x.k == "S") x.s = std::make_shared<StateInterface>(std::forward<A>(a)...);
    else x.c = std::make_shared<CommandInterface>(std::forward<A>(a)...);
    return true;
  }
  catch (const std::exception &)
  {
    return false;
  }
}
static void reset()
{
  for (auto & [i, h] : held) h->end();
  held.clear();
  delete w;
  w = new World;
}

static int64_t run(const json & o)
{
  const std::string op = o["op"];
  const int i = o.value("i", 0), j = o.value("j", 0), l = o.value("l", 0);
  const std::string t = o.value("t", ""), m = o.value("m", "");
  const int64_t v = o.value("v", 0);
  if (op == "NEW") { reset(); for (int c = 1; c <= o["cells"]; ++c) w->cell[c] = dec<double>(c); return 1; }
  if (op == "MK")
  {
    Obj x{o["k"], t, {}, {}, {}};
    bool ok;
    if (m == "desc")
    {
      InterfaceInfo info;
      info.name = o["nm"], info.data_type = t, info.initial_value = o["txt"];
      ok = make(x, InterfaceDescription(o["pre"], info));
    }
    else ok = make(x, o["pre"].get<std::string>(), o["nm"].get<std::string>(), t, o["txt"].get<std::string>());
    if (ok) w->o[i] = x;
    return ok ? 1 : THREW;
  }
  if (op == "MKP")
  {
    Obj x{o["k"], "double", {}, {}, {}};
    make(x, o["pre"].get<std::string>(), o["nm"].get<std::string>(), &w->cell[o["c"]]);
    w->o[i] = x;
    return 1;
  }
  if (op == "CP" || op == "MV")
  {
    Obj & y = w->o.at(j);
    Obj x{y.k, y.own, {}, {}, {}};
    if (y.h) x.h = op == "CP" ? std::make_shared<Handle>(*y.h) : std::make_shared<Handle>(std::move(*y.h));
    else if (y.s) x.s = op == "CP" ? std::make_shared<StateInterface>(*y.s) : std::make_shared<StateInterface>(std::move(*y.s));
    else x.c = std::make_shared<CommandInterface>(std::move(*y.c));
    w->o[i] = x;
    return 1;
  }
  if (op == "AS") { *w->o.at(i).h = *w->o.at(j).h; return 1; }
  if (op == "MA") { *w->o.at(i).h = std::move(*w->o.at(j).h); return 1; }
  if (op == "DROP") { w->o.erase(i); return 1; }
  if (op == "CELL") { w->cell[o["c"]] = dec<double>(v); return 1; }
  if (op == "SET") return set(w->o.at(i).get(), t, v, m);
  if (op == "GET") return get(w->o.at(i).get(), t, m);
  if (op == "HOLD")
  {
    held[i] = std::make_unique<Hold>();
    held[i]->start(w->o.at(i).get().get_mutex(), m == "excl");
    return 1;
  }
  if (op == "REL") { held.at(i)->end(); held.erase(i); return 1; }
  if (op == "WSET" || op == "WGET")  // waits while the lock is held, which is then released
  {
    std::atomic<bool> done{false};
    int64_t r = 0;
    Handle & h = w->o.at(i).get();
    std::thread x([&] { r = op == "WSET" ? set(h, t, v, "wait") : get(h, t, "wait"); done = true; });
    std::this_thread::sleep_for(std::chrono::microseconds(o["us"]));
    const bool early = done;
    held.at(i)->end(), held.erase(i);
    x.join();
    return early ? ODD : r;
  }
  if (op == "RACE")  // two threads write v and v2, two read; at the end v is written
  {
    Handle & h = w->o.at(i).get();
    const int64_t v2 = o["v2"];
    return typed(t, [&](auto y) -> int64_t {
      using T = decltype(y);
      std::atomic<int64_t> r{1};
      std::atomic<bool> stop{false};
      const int64_t before = opt<T>(h.get_optional<T>());
      auto writer = [&](bool wait) {
        for (int n = 0; n < 300; ++n)
          if (!h.set_value(dec<T>(n % 2 ? v : v2), wait) && wait) r = ODD;
      };
      auto reader = [&](bool wait) {
        while (!stop)
        {
          T x = dec<T>(v);
          const bool ok = h.get_value(x, wait);
          const int64_t c = enc<T>(x);
          if ((!ok && wait) || (c != before && c != v && c != v2)) r = ODD;
        }
      };
      std::thread a(writer, true), b(writer, false), c(reader, true), d(reader, false);
      a.join(), b.join();
      stop = true;
      c.join(), d.join();
      if (!h.set_value(dec<T>(v), true)) r = 0;
      return r;
    });
  }
  if (op == "LEND")
  {
    Obj & x = w->o.at(i);
    Loan & y = w->l[l];
    y = Loan{};
    auto f = y.freed;
    if (x.s) y.s = o["del"] ? std::make_unique<LoanedStateInterface>(x.s, [f] { ++*f; }) : std::make_unique<LoanedStateInterface>(x.s);
    else y.c = o["del"] ? std::make_unique<LoanedCommandInterface>(x.c, [f] { ++*f; }) : std::make_unique<LoanedCommandInterface>(x.c);
    return 1;
  }
  if (op == "LMV")
  {
    Loan & x = w->l.at(l);
    if (x.s) x.s = std::make_unique<LoanedStateInterface>(std::move(*x.s));
    else x.c = std::make_unique<LoanedCommandInterface>(std::move(*x.c));
    return 1;
  }
  if (op == "LDROP") { w->l.at(l).s.reset(), w->l.at(l).c.reset(); return 1; }
  if (op == "LSET" || op == "LGET")
  {
    Loan & x = w->l.at(l);
    return typed(t, [&](auto y) -> int64_t {
      using T = decltype(y);
      try
      {
        if (op == "LSET") return x.c->set_value(dec<T>(v), o["n"].get<unsigned>()) ? 1 : 0;
        return opt<T>(x.s ? x.s->get_optional<T>(o["n"].get<unsigned>()) : x.c->get_optional<T>(o["n"].get<unsigned>()));
      }
      catch (const std::exception &)
      {
        return THREW;
      }
    });
  }
  if (op == "LIM")
  {
    const double lo = dec<double>(o["lo"]), hi = dec<double>(o["hi"]);
    w->o.at(i).c->set_on_set_command_limiter([lo, hi](double x, bool & lim) {
      const double y = x < lo ? lo : x > hi ? hi : x;
      lim = y != x && !std::isnan(x);
      return y;
    });
    return 1;
  }
  if (op == "COMP")
  {
    w->comp = std::make_shared<Comp>();
    HardwareComponentParams p;
    p.hardware_info.name = "comp", p.hardware_info.type = "system", p.hardware_info.is_async = false, p.hardware_info.rw_rate = 0;
    p.clock = std::make_shared<rclcpp::Clock>();
    std::map<std::string, ComponentInfo> joints, gpios, sensors;
    for (auto & f : o["ifs"])
    {
      InterfaceInfo info;
      info.name = f["nm"], info.data_type = f["t"], info.initial_value = f["txt"];
      const std::string pre = f["pre"], in = f["in"];
      if (in == "x") { (f["k"] == "S" ? w->comp->us : w->comp->uc).emplace_back(pre, info); continue; }
      auto & c = in == "j" ? joints[pre] : in == "g" ? gpios[pre] : sensors[pre];
      c.name = pre, c.type = in == "j" ? "joint" : in == "g" ? "gpio" : "sensor";
      (f["k"] == "S" ? c.state_interfaces : c.command_interfaces).push_back(info);
    }
    for (auto & [n, c] : joints) p.hardware_info.joints.push_back(c);
    for (auto & [n, c] : gpios) p.hardware_info.gpios.push_back(c);
    for (auto & [n, c] : sensors) p.hardware_info.sensors.push_back(c);
    try
    {
      if (w->comp->init(p) != CallbackReturn::SUCCESS) return 0;
      std::map<std::string, Obj> all;
      for (auto & s : w->comp->on_export_state_interfaces())
        all["S" + s->get_name()] = Obj{"S", "", {}, std::const_pointer_cast<StateInterface>(s), {}};
      for (auto & c : w->comp->on_export_command_interfaces()) all["C" + c->get_name()] = Obj{"C", "", {}, {}, c};
      size_t n = 0;
      for (auto & f : o["ifs"])
      {
        const std::string key = f["k"].get<std::string>() + f["pre"].get<std::string>() + "/" + f["nm"].get<std::string>();
        if (all.count(key)) w->o[f["i"]] = all[key], ++n;
      }
      return n == all.size() ? 1 : ODD;
    }
    catch (const std::exception &)
    {
      return THREW;
    }
  }
  if (op == "CSET" || op == "CGET")
    return typed(t, [&](auto y) -> int64_t {
      using T = decltype(y);
      const bool st = o["k"] == "S";
      const std::string nm = o["nm"];
      Comp & c = *w->comp;
      try
      {
        if (m == "name")
        {
          if (op == "CSET") { if (st) c.set_state(nm, dec<T>(v)); else c.set_command(nm, dec<T>(v)); return 1; }
          return enc<T>(st ? c.get_state<T>(nm) : c.get_command<T>(nm));
        }
        if (op == "CSET")
          return (st ? c.set_state(c.get_state_interface_handle(nm), dec<T>(v), m == "wait")
                     : c.set_command(c.get_command_interface_handle(nm), dec<T>(v), m == "wait")) ? 1 : 0;
        T x = dec<T>(77);
        const bool ok = st ? c.get_state(c.get_state_interface_handle(nm), x, m == "wait")
                           : c.get_command(c.get_command_interface_handle(nm), x, m == "wait");
        return ok ? enc<T>(x) : BUSY;
      }
      catch (const std::exception &)
      {
        return THREW;
      }
    });
  if (op == "HAS") return (o["k"] == "S" ? w->comp->has_state(o["nm"]) : w->comp->has_command(o["nm"])) ? 1 : 0;
  return ODD;
}

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  reset();
  std::string line;
  while (std::getline(in, line))
  {
    json e = json::parse(line);
    e["r"] = run(e);
    e["s"] = show();
    out << e.dump() << std::endl;
  }
  reset();
  return 0;
}
