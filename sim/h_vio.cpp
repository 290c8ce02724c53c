#include "core.h"
namespace sim {
void register_vio_props();
void register_c11();
void register_c04();
void register_c05();
void register_c06();
void register_c10();
} // namespace sim
int main(int argc, char **argv) {
  sim::register_vio_props();
  sim::register_c11();
  sim::register_c04();
  sim::register_c05();
  sim::register_c06();
  sim::register_c10();
  return sim::harness_main(argc, argv);
}
