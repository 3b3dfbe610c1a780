// R01: random draws in parallel loops, with the real generator
#include <random>
namespace std { struct fixed_device { using result_type = unsigned; fixed_device() {} template <class T> explicit fixed_device(const T &) {} unsigned operator()() { return 5489; } double entropy() const { return 0; } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } }; }
#define random_device fixed_device
#include "tools.h"
#include "gm.hpp"
#include "pf.hpp"
#include "lmb.hpp"
#include "models.hpp"
#include "par.h"
using namespace Eigen; using namespace lmb;
using Mix = GM<4, 3>; using MT = SILMB<Mix>; using S = PositionSensor<MT::Target>;
// two reports are matched with one target in parallel; each match samples the density
NS_HARNESS(draws_match) { MT t; t.params.r_lim = 1e-6; t.params.cov_lim = 1e9; Mix m(&t.params, Vector4d(0, 0, 1, 1), Matrix4d::Identity() * 64); t.targettree.new_target(hs::real("r", 0.1, 0.9), std::move(m), 0); S s; s.pD_ = 0.5; s.fov.corners << 90, 90, -90, -90, 180, -180, -180, 180; S::Scan scan; scan.emplace_back(Vector2d(0, 0), Matrix2d::Identity()); scan.emplace_back(Vector2d(0, 0.001), Matrix2d::Identity()); int n = nso_regions(); nso_schedule(0); t.correct(s, scan, 1.0); if (nso_regions() > n) ns_reach("parallel"); ns_check(std::isfinite(scan[0].rB), "a scan ends"); }
// two mixtures of two components are sampled when they are missed or predicted in parallel groups
NS_HARNESS(draws_groups) { MT t; t.params.r_lim = 1e-6; t.params.cov_lim = 1e9; for (int k = 0; k < 2; ++k) { Mix m(&t.params, Vector4d(0, 10 * k, 1, 1), Matrix4d::Identity() * 64); t.targettree.new_target(k ? 0.5 : hs::real("r", 0.1, 0.9), std::move(m), 0); } S s; s.pD_ = 0.5; s.fov.corners << 90, 90, -90, -90, 180, -180, -180, 180; S::Scan scan; int n = nso_regions(); nso_schedule(1); t.correct(s, scan, 1.0); if (nso_regions() > n) ns_reach("parallel"); ns_check(t.targettree.targets.size() == 2, "a scan keeps targets"); }
