// Calls of the library's dense operations on caller-described buffers (sizes, leading dimensions and scalars arbitrary).
// Never executed: parsed together with the repository's headers and analysed.
#include <Kokkos_Core.hpp>
#include "la/dvector.hpp"
#include "la/mvector.hpp"
#include "la/lapack.hpp"
#include "la/utils.hpp"
#include "la/map.hpp"
#include "interface.hpp"
#include "nlcglib.hpp"

namespace witness {
using namespace nlcglib;
using C = Kokkos::complex<double>;
using buf = buffer_protocol<std::complex<double>, 2>;
using buf1 = buffer_protocol<double, 1>;
using matS = KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged>;
using matL = KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace>;
using vec = Kokkos::View<double*, Kokkos::HostSpace>;
using vecS = Kokkos::View<double*, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged>;

inline matS wrap(const buf& b) { return matS(Map<>(Communicator(b.mpi_comm), SlabLayoutV({{0, 0, b.size[0], b.size[1]}})), b); }
inline matL own(const buf& b)
{
  matL r(Map<>(Communicator(b.mpi_comm), SlabLayoutV({{0, 0, b.size[0], b.size[1]}})));
  auto s = wrap(b);
  Kokkos::deep_copy(r.array(), s.array());
  return r;
}
inline vec ownv(const buf1& b)
{
  vec r("", b.size[0]);
  vecS s(b.data, Kokkos::LayoutStride(b.size[0], b.stride[0]));
  Kokkos::deep_copy(r, s);
  return r;
}
template <class M>
inline void put(const buf& b, const M& x)
{
  auto d = wrap(b);
  Kokkos::deep_copy(d.array(), x.array());
}
template <class V>
inline void putv(const buf1& b, const V& x)
{
  vecS d(b.data, Kokkos::LayoutStride(b.size[0], b.stride[0]));
  Kokkos::deep_copy(d, x);
}

void w_inner(buf& c, buf& a, buf& b, C alpha, C beta) { auto mc = wrap(c); const auto ma = wrap(a); const auto mb = wrap(b); inner(mc, ma, mb, alpha, beta); }
void w_outer(buf& c, buf& a, buf& b, C alpha, C beta) { auto mc = wrap(c); const auto ma = wrap(a); const auto mb = wrap(b); outer(mc, ma, mb, alpha, beta); }
void w_transform(buf& c, buf& a, buf& b, C alpha, C beta) { auto mc = wrap(c); const auto ma = wrap(a); const auto mb = wrap(b); transform(mc, beta, alpha, ma, mb); }
void w_inner_left(buf& c, buf& a, buf& b, C alpha, C beta) { auto mc = own(c); const auto ma = own(a); const auto mb = own(b); inner(mc, ma, mb, alpha, beta); put(c, mc); }
void w_outer_left(buf& c, buf& a, buf& b, C alpha, C beta) { auto mc = own(c); const auto ma = own(a); const auto mb = own(b); outer(mc, ma, mb, alpha, beta); put(c, mc); }
void w_transform_left(buf& c, buf& a, buf& b, C alpha, C beta) { auto mc = own(c); const auto ma = own(a); const auto mb = own(b); transform(mc, beta, alpha, ma, mb); put(c, mc); }
void w_add(buf& c, buf& a, C alpha, C beta) { auto mc = wrap(c); const auto ma = wrap(a); add(mc, ma, alpha, beta); }
void w_add_left(buf& c, buf& a, C alpha, C beta) { auto mc = own(c); const auto ma = own(a); add(mc, ma, alpha, beta); put(c, mc); put(a, ma); }
void w_add_default(buf& c, buf& a, C alpha) { auto mc = wrap(c); const auto ma = wrap(a); add(mc, ma, alpha); }
void w_axpy(buf& c, buf& a, C alpha, C beta) { auto mc = wrap(c); auto ma = wrap(a); _add(mc, ma, alpha, beta); }
void w_scale_cols(buf& c, buf& a, buf1& x, double alpha, double beta) { auto mc = wrap(c); const auto ma = wrap(a); const auto v = ownv(x); scale(mc, ma, v, alpha, beta); putv(x, v); }
void w_scale_cols0(buf& c, buf& a, buf1& x, double alpha) { auto mc = wrap(c); const auto ma = wrap(a); const auto v = ownv(x); scale(mc, ma, v, alpha); putv(x, v); }
void w_scale(buf& c, buf& a, double alpha, double beta) { auto mc = wrap(c); const auto ma = wrap(a); scale(mc, ma, alpha, beta); }
void w_scale0(buf& c, buf& a, double alpha) { auto mc = wrap(c); const auto ma = wrap(a); scale(mc, ma, alpha); }
void w_inner_alloc(buf& c, buf& a, buf& b, C alpha, C beta) { const auto ma = wrap(a); const auto mb = wrap(b); auto r = inner_()(ma, mb, alpha, beta); put(c, r); }
void w_inner_alloc1(buf& c, buf& a, buf& b) { const auto ma = own(a); const auto mb = own(b); auto r = inner_()(ma, mb); put(c, r); put(a, ma); put(b, mb); }
void w_transform_alloc(buf& c, buf& a, buf& b, C alpha) { const auto ma = wrap(a); const auto mb = wrap(b); auto r = transform_alloc(ma, mb, alpha); put(c, r); }
void w_transform_alloc1(buf& c, buf& a, buf& b) { const auto ma = own(a); const auto mb = own(b); auto r = transform_alloc(ma, mb); put(c, r); put(a, ma); put(b, mb); }
C w_innerh_tr(buf& a, buf& b) { const auto ma = wrap(a); const auto mb = wrap(b); return innerh_tr()(ma, mb); }
void w_eigh(buf& u, buf1& w, buf& s) { auto mu = own(u); vec vw = ownv(w); const auto ms = own(s); eigh(mu, vw, ms); put(u, mu); putv(w, vw); put(s, ms); }
void w_solve_sym(buf& a, buf& b) { auto ma = own(a); auto mb = own(b); solve_sym(ma, mb); put(b, mb); }
void w_loewdin(buf& y, buf& x) { const auto mx = own(x); auto r = loewdin(mx); put(y, r); put(x, mx); }
void w_loewdin_s(buf& y, buf& x, buf& sx) { const auto mx = own(x); const auto ms = own(sx); auto r = loewdin(mx, ms); put(y, r); put(x, mx); put(sx, ms); }
void w_diag(buf& d, buf& x) { const auto mx = wrap(x); auto r = diag(mx); auto md = wrap(d); for (int i = 0; i < (int)r.extent(0); ++i) md.array()(i, 0) = r(i); }
void w_make_diag(buf& c, buf1& x) { const auto v = ownv(x); auto r = make_diag()(v); put(c, r); putv(x, v); }
void w_zeros_like(buf& c, buf& a) { const auto ma = wrap(a); auto r = zeros_like()(ma); put(c, r); }
void w_copy(buf& c, buf& a) { const auto ma = own(a); auto r = ma.copy(); auto z = r; scale(z, ma, 3.0); put(a, ma); put(c, r); }
void w_copyf(buf& c, buf& a) { const auto ma = wrap(a); auto r = copy(ma); scale(r, r, 3.0); put(c, r); }
double w_l2norm(MatrixBaseZ* p, std::shared_ptr<MatrixBaseZ>& a) { auto x = make_mmatrix<Kokkos::HostSpace>(a); return l2norm(x); }
C w_innerh_reduce(std::shared_ptr<MatrixBaseZ>& a, std::shared_ptr<MatrixBaseZ>& b) { auto x = make_mmatrix<Kokkos::HostSpace>(a); auto y = make_mmatrix<Kokkos::HostSpace>(b); return innerh_reduce(x, y); }
}  // namespace witness
