#pragma once
#include "vio_run.h"
namespace sim {

inline void frames_of(const Scenario &s, int &NI, int &NF) {
  NI = (int)((s.num("duration") + 0.8) * s.num("imu_rate"));
  int per = s.in("stereo_sync", 1) ? 1 : s.in("ncams", 1);
  NF = (int)(s.num("duration") * s.num("cam_rate")) * per;
}
inline void abstract_state(const VioSim &, const std::shared_ptr<ov_msckf::State> &st, Result &res, int extra = 0) {
  Hash h;
  h.u64(st->_clones_IMU.size());
  h.u64(st->_features_SLAM.size());
  h.u64(st->max_covariance_size());
  h.u64(extra);
  int fails = 0, anch = 0;
  std::set<double> an;
  for (auto &f : st->_features_SLAM) {
    fails += f.second->update_fail_count;
    an.insert(f.second->_anchor_clone_timestamp);
  }
  anch = (int)an.size();
  h.u64(fails);
  h.u64(anch);
  res.states.insert(h.h);
}

} // namespace sim
