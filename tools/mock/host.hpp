// A small host (mean-field toy model) for the demonstrations: implements the public interface only.
#pragma once
#include <nlcglib.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <random>
#include <string>
#include <unistd.h>
#include <vector>
#include <mpi.h>

namespace host {
using cd = std::complex<double>;
using key = std::pair<int, int>;
static const double KB = 3.1668115634556e-06;

struct Mat {                       // column major, leading dimension ld
  int m = 0, n = 0, ld = 0;
  std::vector<cd> a;
  Mat() {}
  Mat(int m, int n, int pad = 0) : m(m), n(n), ld(m + pad), a((size_t)(m + pad) * n, cd(0)) {}
  cd& operator()(int i, int j) { return a[i + (size_t)j * ld]; }
  const cd& operator()(int i, int j) const { return a[i + (size_t)j * ld]; }
};
inline Mat mul(const Mat& A, const Mat& B) {
  Mat C(A.m, B.n);
  for (int j = 0; j < B.n; ++j) for (int l = 0; l < A.n; ++l) for (int i = 0; i < A.m; ++i) C(i, j) += A(i, l) * B(l, j);
  return C;
}
inline Mat herm(const Mat& A) {
  Mat C(A.n, A.m);
  for (int j = 0; j < A.n; ++j) for (int i = 0; i < A.m; ++i) C(j, i) = std::conj(A(i, j));
  return C;
}

struct KP {
  key k;
  int npw, nb;
  double w;
  Mat T, S, P;                     // kinetic part, overlap, preconditioner
  Mat C, HC, SC;
  std::vector<double> f, e, ekin;
};

template <int d, class T> struct Buf : nlcglib::BufferBase<d, T> {
  using base = nlcglib::BufferBase<d, T>;
  using buffer_t = typename base::buffer_t;
  std::vector<buffer_t> b;
  std::vector<key> keys;
  MPI_Comm comm = MPI_COMM_WORLD;
  buffer_t get(int i) override { return b[i]; }
  const buffer_t get(int i) const override { return b[i]; }
  int size() const override { return b.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return comm; }
  key kpoint_index(int i) const override { return keys[i]; }
};

struct Rec {                       // one evaluation
  double etot, mu_after;
  std::vector<std::vector<double>> f;
  std::vector<Mat> C;
};

struct Options {
  int seed = 1, nk = 2, pad = 0, nel = 4, occ = 2;
  std::vector<int> nb{4, 4, 4, 4}, npw{8, 9, 8, 7};
  double g = 0.3;                  // strength of the mean field
  double spread = 1.0;
  MPI_Comm comm = MPI_COMM_WORLD;
  std::function<int(int)> owner = [](int k) { int n; MPI_Comm_size(MPI_COMM_WORLD, &n); return k % n; };
  bool reverse = false;            // store local k-points in reverse order
  bool overlap = true;             // non trivial overlap
};

struct Energy : nlcglib::EnergyBase {
  Options o;
  std::vector<KP> kp;              // local
  std::vector<KP> all;             // every k-point (templates)
  double etot = 0, mu = 0;
  int ncompute = 0, nsetfn = 0;
  std::vector<Rec> hist;
  bool keep = false;
  std::function<double(int, double)> tweak;   // (evaluation number, energy) -> energy
  std::vector<double> mus;
  double last_set_mu = NAN;

  static Mat rnd(std::mt19937& g, int m, int n) {
    std::normal_distribution<double> d;
    Mat A(m, n);
    for (auto& x : A.a) x = cd(d(g), d(g));
    return A;
  }
  explicit Energy(Options oo) : o(oo) {
    int rank;
    MPI_Comm_rank(o.comm, &rank);
    for (int k = 0; k < o.nk; ++k) {
      std::mt19937 g(1000 * o.seed + k);
      KP p;
      p.k = {k, 0};
      p.npw = o.npw[k % o.npw.size()];
      p.nb = o.nb[k % o.nb.size()];
      p.w = (k + 1.0) / (o.nk * (o.nk + 1) / 2.0);
      int n = p.npw;
      Mat A = rnd(g, n, n), B = rnd(g, n, n), D = rnd(g, n, n);
      p.T = Mat(n, n);
      p.S = Mat(n, n);
      p.P = Mat(n, n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        p.T(i, j) = 0.1 * o.spread * (A(i, j) + std::conj(A(j, i))) / 2.0;
        p.S(i, j) = o.overlap ? 0.03 * (B(i, j) + std::conj(B(j, i))) / 2.0 : cd(0);
        p.P(i, j) = 0.02 * (D(i, j) + std::conj(D(j, i))) / 2.0;
      }
      for (int i = 0; i < n; ++i) { p.T(i, i) += o.spread * (0.2 * i); p.S(i, i) += 1; p.P(i, i) += 1.0 / (1 + 0.1 * i); }
      Mat X = rnd(g, n, p.nb);
      p.C = Mat(n, p.nb, o.pad);
      p.HC = Mat(n, p.nb, o.pad);
      p.SC = Mat(n, p.nb, o.pad);
      p.f.assign(p.nb, double(o.nel) / p.nb);
      p.e.assign(p.nb, 0);
      p.ekin.assign(n, 0);
      for (int i = 0; i < n; ++i) p.ekin[i] = 0.2 * i;
      for (int j = 0; j < p.nb; ++j) {          // S-orthonormal start
        for (int rep = 0; rep < 2; ++rep)
          for (int l = 0; l < j; ++l) {
            cd s = dot(p, X, l, j);
            for (int i = 0; i < n; ++i) X(i, j) -= s * X(i, l);
          }
        double nr = std::sqrt(std::real(dot(p, X, j, j)));
        for (int i = 0; i < n; ++i) X(i, j) /= nr;
      }
      for (int j = 0; j < p.nb; ++j) for (int i = 0; i < n; ++i) p.C(i, j) = X(i, j);
      all.push_back(p);
    }
    for (auto& p : all) if (o.owner(p.k.first) == rank) kp.push_back(p);
    if (o.reverse) kp = std::vector<KP>(kp.rbegin(), kp.rend());
  }
  static cd dot(const KP& p, const Mat& X, int a, int b) {
    cd s = 0;
    for (int i = 0; i < p.npw; ++i) for (int l = 0; l < p.npw; ++l) s += std::conj(X(i, a)) * p.S(i, l) * X(l, b);
    return s;
  }
  void compute() override {
    const int NR = 7;
    std::vector<double> rho(NR, 0), tot(NR, 0);
    for (auto& p : kp) for (int j = 0; j < p.nb; ++j) for (int i = 0; i < NR; ++i) rho[i] += p.w * p.f[j] * std::norm(p.C(i, j));
    MPI_Allreduce(rho.data(), tot.data(), NR, MPI_DOUBLE, MPI_SUM, o.comm);
    double e1 = 0, e = 0, e2 = 0;
    for (auto& p : kp) {
      for (int j = 0; j < p.nb; ++j) {
        cd ee = 0;
        for (int i = 0; i < p.npw; ++i) {
          cd h = 0, s = 0;
          for (int l = 0; l < p.npw; ++l) { h += p.T(i, l) * p.C(l, j); s += p.S(i, l) * p.C(l, j); }
          p.SC(i, j) = s;
          e1 += p.w * p.f[j] * std::real(std::conj(p.C(i, j)) * h);
          if (i < NR) h += o.g * tot[i] * p.C(i, j);
          p.HC(i, j) = h;
          ee += std::conj(p.C(i, j)) * h;
        }
        p.e[j] = std::real(ee);
      }
    }
    for (int i = 0; i < NR; ++i) e2 += 0.5 * o.g * tot[i] * tot[i];
    MPI_Allreduce(&e1, &e, 1, MPI_DOUBLE, MPI_SUM, o.comm);
    etot = e + e2;
    if (tweak) etot = tweak(ncompute, etot);
    ++ncompute;
    if (keep) {
      Rec r;
      r.etot = etot;
      for (auto& p : kp) { r.f.push_back(p.f); r.C.push_back(p.C); }
      hist.push_back(r);
    }
  }
  int nelectrons() override { return o.nel; }
  int occupancy() override { return o.occ; }
  double get_total_energy() override { return etot; }
  std::map<std::string, double> get_energy_components() override { return {{"total", etot}}; }
  std::shared_ptr<nlcglib::MatrixBaseZ> mats(Mat KP::*m) {
    auto r = std::make_shared<Buf<2, cd>>();
    r->comm = o.comm;
    for (auto& p : kp) {
      Mat& M = p.*m;
      r->b.emplace_back(std::array<int, 2>{1, M.ld}, std::array<int, 2>{M.m, M.n}, M.a.data(), nlcglib::memory_type::host, MPI_COMM_SELF);
      r->keys.push_back(p.k);
    }
    return r;
  }
  std::shared_ptr<nlcglib::VectorBaseZ> vecs(std::vector<double> KP::*v) {
    auto r = std::make_shared<Buf<1, double>>();
    r->comm = o.comm;
    for (auto& p : kp) {
      auto& x = p.*v;
      r->b.emplace_back((int)x.size(), x.data(), nlcglib::memory_type::host, MPI_COMM_SELF);
      r->keys.push_back(p.k);
    }
    return r;
  }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_hphi(nlcglib::memory_type) override { return mats(&KP::HC); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_sphi(nlcglib::memory_type) override { return mats(&KP::SC); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_C(nlcglib::memory_type) override { return mats(&KP::C); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_fn() override { return vecs(&KP::f); }
  void set_fn(const std::vector<key>& k, const std::vector<std::vector<double>>& f) override {
    ++nsetfn;
    for (size_t i = 0; i < k.size(); ++i) for (auto& p : kp) if (p.k == k[i]) p.f = f[i];
  }
  std::shared_ptr<nlcglib::VectorBaseZ> get_ek() override { return vecs(&KP::e); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_gkvec_ekin() override { return vecs(&KP::ekin); }
  std::shared_ptr<nlcglib::ScalarBaseZ> get_kpoint_weights() override {
    auto r = std::make_shared<Buf<0, double>>();
    r->comm = o.comm;
    for (auto& p : kp) { r->b.push_back(p.w); r->keys.push_back(p.k); }
    return r;
  }
  void set_chemical_potential(double m) override { mu = m; mus.push_back(m); last_set_mu = m; if (keep && !hist.empty()) hist.back().mu_after = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override {}
};

template <class base> struct Op : base {
  Energy& e;
  Mat KP::*m;
  Op(Energy& e, Mat KP::*m) : e(e), m(m) {}
  void apply(const key& k, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in) const override {
    for (auto& p : e.kp) if (p.k == k) {
      const Mat& M = p.*m;
      std::vector<cd> t((size_t)in.size[0] * in.size[1]);
      for (int j = 0; j < in.size[1]; ++j) for (int i = 0; i < in.size[0]; ++i) {
        cd s = 0;
        for (int l = 0; l < in.size[0]; ++l) s += M(i, l) * in.data[l * in.stride[0] + j * in.stride[1]];
        t[i + (size_t)j * in.size[0]] = s;
      }
      for (int j = 0; j < in.size[1]; ++j) for (int i = 0; i < in.size[0]; ++i) out.data[i * out.stride[0] + j * out.stride[1]] = t[i + (size_t)j * in.size[0]];
      return;
    }
    std::fprintf(stderr, "operator applied for a foreign k-point\n");
    std::_Exit(3);
  }
  std::vector<key> get_keys() const override { std::vector<key> r; for (auto& p : e.kp) r.push_back(p.k); return r; }
};
using S = Op<nlcglib::OverlapBase>;
using P = Op<nlcglib::UltrasoftPrecondBase>;

struct Env {
  Env(int& c, char**& v) { MPI_Init(&c, &v); nlcglib::initialize(); }
  ~Env() { nlcglib::finalize(); MPI_Finalize(); }
};

struct Par {
  nlcglib::smearing_type sm = nlcglib::smearing_type::FERMI_DIRAC;
  double T = 20000, tol = 1e-9, kappa = 0.3, tau = 0.1;
  int maxiter = 60, restart = 5;
};
inline nlcglib::nlcg_info run(Energy& E, Par p = Par()) {
  S s(E, &KP::S);
  P pr(E, &KP::P);
  return nlcglib::nlcg_us_cpu(E, pr, s, p.sm, p.T, p.tol, p.kappa, p.tau, p.maxiter, p.restart);
}
}  // namespace host

#define REQUIRE(c) do { if (!(c)) { std::printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); return 1; } } while (0)
