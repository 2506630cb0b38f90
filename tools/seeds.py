"""Planted bugs (see seedlib.py).  Written from the property texts and the code."""
RMC = "hardware_interface/src/resource_manager.cpp"
HWC = "hardware_interface/src/hardware_component.cpp"


def comp(n, t, g="", r=0, cmd=(), st=()):
    return {"n": n, "t": t, "g": g, "r": r, "as": False, "bad": "", "cmd": list(cmd), "st": list(st)}


A1 = comp("a1", "actuator", "", 0, ["a1j/p", "a1j/v"], ["a1j/p"])
A1G = comp("a1", "actuator", "G", 0, ["a1j/p"], ["a1j/p"])
B1G = comp("b1", "system", "G", 0, ["b1j/p"], ["b1j/p"])
RESET = {"op": "RESET", "cmrate": 100, "allow": False, "retn": True}


def load(*cs, **k):
    return dict({"op": "LOAD", "comps": list(cs), "mut": "", "out": {}}, **k)


def setst(c, to, **out):
    return {"op": "SET", "c": c, "to": to, "dt": 0, "out": {c + "." + k: v for k, v in out.items()}}


def rd(dt=10000, **out):
    return {"op": "READ", "dt": dt, "p": 10000, "out": {k.replace("_", "."): v for k, v in out.items()}}


def wr(dt=0, **out):
    return {"op": "WRITE", "dt": dt, "p": 10000, "out": {k.replace("_", "."): v for k, v in out.items()}}


SEEDS = [
    dict(id="h01-error-failure", prop="H01", driver="rm_driver",
         edits=[(HWC, """    switch (impl_->on_error(impl_->get_lifecycle_state()))
    {
      case CallbackReturn::SUCCESS:
""", """    switch (impl_->on_error(impl_->get_lifecycle_state()))
    {
      case CallbackReturn::SUCCESS:
      case CallbackReturn::FAILURE:
"""), (HWC, """            lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED,
            lifecycle_state_names::UNCONFIGURED));
        break;
      case CallbackReturn::FAILURE:
      case CallbackReturn::ERROR:
        impl_->set_lifecycle_state(
          rclcpp_lifecycle::State(
            lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED, lifecycle_state_names::FINALIZED));
        break;
    }
  }
  return impl_->get_lifecycle_state();
}

std::vector<StateInterface::ConstSharedPtr> HardwareComponent::export_state_interfaces()""",
                """            lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED,
            lifecycle_state_names::UNCONFIGURED));
        break;
      case CallbackReturn::ERROR:
        impl_->set_lifecycle_state(
          rclcpp_lifecycle::State(
            lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED, lifecycle_state_names::FINALIZED));
        break;
    }
  }
  return impl_->get_lifecycle_state();
}

std::vector<StateInterface::ConstSharedPtr> HardwareComponent::export_state_interfaces()""")],
         script=[RESET, load(A1), setst("a1", "active"), rd(a1_read="E", a1_error="F")],
         expect='must(ev[-1]["s"]["comps"]["a1"] == "finalized", "on_error reported FAILURE but the component is " + str(ev[-1]["s"]["comps"]))\n',
         needs="a read error whose on_error callback itself reports FAILURE",
         breaks="a component whose error handling failed returns to unconfigured and can be brought up again"),
    dict(id="h03-withdraw-clears-claim", prop="H03", driver="rm_driver",
         edits=[(RMC, """      if (found_it != available_command_interfaces_.end())
      {
        available_command_interfaces_.erase(found_it);
        RCLCPP_DEBUG(
          get_logger(), "(hardware '%s'): '%s' command interface removed from available list",
          hardware_name.c_str(), interface.c_str());
""", """      if (found_it != available_command_interfaces_.end())
      {
        available_command_interfaces_.erase(found_it);
        // nobody can hold an interface that is not available
        claimed_command_interface_map_[interface] = false;
        RCLCPP_DEBUG(
          get_logger(), "(hardware '%s'): '%s' command interface removed from available list",
          hardware_name.c_str(), interface.c_str());
""")],
         script=[RESET, load(A1), setst("a1", "active"), {"op": "CLAIM", "i": "a1j/p", "out": {}}, wr(a1_write="E"),
                 setst("a1", "active"), {"op": "CLAIM", "i": "a1j/p", "out": {}}],
         expect='must(ev[-1]["res"] is False, "a second loan was given while the first is alive")\nmust("a1j/p" in ev[-2]["s"]["claimed"], "a held interface is not reported as claimed")\n',
         needs="a loan that outlives a failure of its hardware, then the hardware is configured again and the interface claimed again",
         breaks="two holders of the same command interface"),
    dict(id="h04-group-first-result", prop="H04", driver="rm_driver",
         edits=[(RMC, """    if (value != return_type::OK)
    {
      hw_group_state_.at(group_name) = value;
    }
""", """    if (value != return_type::OK && hw_group_state_.at(group_name) == return_type::OK)
    {
      hw_group_state_.at(group_name) = value;
    }
""")],
         script=[RESET, load(A1G, B1G), setst("a1", "active"), setst("b1", "active"), rd(), wr(a1_write="D", b1_write="E")],
         expect='must(ev[-1]["res"]["r"] == "ERROR", "b1 failed and the cycle ended " + ev[-1]["res"]["r"])\nmust("b1j/p" not in ev[-1]["s"]["acmd"], "the interface of failed b1 is still on offer")\n',
         needs="in one write cycle one member of a group asks to be deactivated and a later member fails",
         breaks="the cycle is no error and the interfaces of the failed member stay on offer"),
    dict(id="h06-unknown-exception", prop="H06", driver="rm_driver", nth=1,
         edits=[(RMC, """            interfaces_to_string(start_interfaces_buffer, stop_interfaces_buffer).c_str());
          handle_exceptions ? void() : throw;
          ret = false;
""", """            interfaces_to_string(start_interfaces_buffer, stop_interfaces_buffer).c_str());
          handle_exceptions ? void() : throw;
""")],
         script=[RESET, load(A1), setst("a1", "active"), {"op": "PREP", "a": ["a1j/p"], "b": [], "out": {}},
                 {"op": "PERF", "a": ["a1j/p"], "b": [], "out": {"a1.perform": "Y"}}],
         expect='must(ev[-1]["res"] is False, "a mode switch was reported done although the hardware threw")\n',
         needs="a driver that throws something that is not a std::exception from perform_command_mode_switch",
         breaks="the mode switch is reported as performed"),
]
