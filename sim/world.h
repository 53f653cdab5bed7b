#pragma once
#include "sim.h"
#include "wire.h"
#include "model.h"
#include <glib.h>
namespace world {
using std::string; using std::vector; using std::map;
struct Profile { string name; };
void run_manager(const string &profile);     // world A; never returns
void run_client(const string &profile);      // world B; never returns
void run_server(const string &profile);      // world C; never returns
void run_launcher(const string &profile);   // world D; never returns
void run_events(const string &profile);      // world E; never returns
void warm();
void set_mix(const string &profile);
void start_logging(bool verbose);
}
