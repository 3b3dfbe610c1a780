// The current cf.hpp with the planar conversions between degrees and local metres replaced by an exact local map:
// 1/64 degree per metre along each axis (nsf::bend makes the scale depend on the latitude of the origin, as on the globe).  What the real conversions do is decided by K01 and K02.
#pragma once
#define ll2ne real_ll2ne
#define ne2ll real_ne2ll
#define ll2ne_i real_ll2ne_i
#define ne2ll_i real_ne2ll_i
#include "real_cf.hpp"
#undef ll2ne
#undef ne2ll
#undef ll2ne_i
#undef ne2ll_i
namespace nsf { inline double bend = 0; template <typename O> double per_degree(const O &o) { return bend == 0 ? 64.0 : 64 * (1 + bend * o(0)); } }
namespace cf {
template <typename LL_, typename LL_ORIGIN> NE ll2ne(const LL_ &ll, const LL_ORIGIN &origin) { NE r; r << nsf::per_degree(origin) * (ll(0) - origin(0)), nsf::per_degree(origin) * (ll(1) - origin(1)); return r; }
template <typename NE_, typename LL_ORIGIN> LL ne2ll(const NE_ &ne, const LL_ORIGIN &origin) { LL r; r << ne(0) / nsf::per_degree(origin) + origin(0), ne(1) / nsf::per_degree(origin) + origin(1); return r; }
template <typename NE_, typename LL_ORIGIN> void ne2ll_i(NE_ &&ne, const LL_ORIGIN &origin) { ne.template head<2>() = cf::ne2ll(ne, origin).template head<2>(); }
template <typename LL_, typename LL_ORIGIN> void ll2ne_i(LL_ &&ll, const LL_ORIGIN &origin) { ll.template head<2>() = cf::ll2ne(ll, origin); }
}
