#pragma once
#include "engine.h"
struct Scenario { std::function<void(Run&)> fn; std::set<std::string> owner; };
int register_scenario(const char* name,Scenario s);
#define SCENARIO(name) static void scen_##name(Run& run); static int reg_##name=register_scenario(#name,Scenario{scen_##name,{}}); static void scen_##name(Run& run)
