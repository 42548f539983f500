#include "openorbitaloptimizer/scfsolver.hpp"

namespace OpenOrbitalOptimizer {
  class SolverImpl {
    using To = double; using Tb = double;
    IndexVector nblk_;
    VectorT<Tb> maxocc_, npart_;
    FockBuilder<To, Tb> builder_;
    BatchedFockBuilder<To, Tb> batched_;
    std::vector<std::string> desc_;
    VectorT<Tb> fixed_;
    bool have_fixed_ = false;
    Orbitals<To> orbs_;
    OrbitalOccupations<Tb> occs_;
    OrbitalEnergies<Tb> eps_;
    Tb energy_ = 0;
    bool converged_ = false;
    int maxit_ = 200;
    Tb thr_ = 1e-8;
    int iters_ = 0;
    Tb guess_energy_ = 0;
    FockMatrix<To> fock_;

    int nblocks() const { return (int) maxocc_.size(); }

    MatrixT<To> dens(size_t b, const Orbitals<To> & C, const OrbitalOccupations<Tb> & n) const {
      if (!C[b].size()) return MatrixT<To>::Zero(0, 0);
      return C[b] * n[b].asDiagonal() * C[b].transpose();
    }

    void diagonalize(const FockMatrix<To> & F, Orbitals<To> & C, OrbitalEnergies<Tb> & e) const {
      C.resize(F.size()); e.resize(F.size());
      for (size_t b = 0; b < F.size(); b++) {
        if (!F[b].size()) { C[b] = MatrixT<To>::Zero(0, 0); e[b] = VectorT<Tb>::Zero(0); continue; }
        MatrixT<To> Fs = (F[b] + F[b].transpose()) / To(2);
        Eigen::SelfAdjointEigenSolver<MatrixT<To>> es(Fs);
        if (es.info() != Eigen::Success || !es.eigenvalues().allFinite())
          throw std::runtime_error("VSHIM: Fock matrix cannot be diagonalized (non-finite?)\n");
        C[b] = es.eigenvectors(); e[b] = es.eigenvalues();
      }
    }

    OrbitalOccupations<Tb> aufbau(const OrbitalEnergies<Tb> & e) const {
      OrbitalOccupations<Tb> n(e.size());
      for (size_t b = 0; b < e.size(); b++) n[b] = VectorT<Tb>::Zero(e[b].size());
      size_t off = 0;
      for (int t = 0; t < (int) nblk_.size(); t++) {
        if (have_fixed_) {
          for (int k = 0; k < nblk_(t); k++) {
            Tb left = fixed_(off + k);
            for (Eigen::Index i = 0; i < e[off + k].size() && left > 0; i++) {
              Tb x = std::min(left, maxocc_(off + k)); n[off + k](i) = x; left -= x;
            }
            if (left > 0) throw std::runtime_error("VSHIM: block too small for fixed occupation\n");
          }
        } else {
          std::vector<std::tuple<Tb, int, Eigen::Index>> lst;
          for (int k = 0; k < nblk_(t); k++)
            for (Eigen::Index i = 0; i < e[off + k].size(); i++) lst.emplace_back(e[off + k](i), k, i);
          std::sort(lst.begin(), lst.end());
          Tb left = npart_(t);
          for (auto & x : lst) {
            if (left <= 0) break;
            Tb y = std::min(left, maxocc_(off + std::get<1>(x)));
            n[off + std::get<1>(x)](std::get<2>(x)) = y; left -= y;
          }
          if (left > 0) throw std::runtime_error("VSHIM: not enough orbitals\n");
        }
        off += nblk_(t);
      }
      return n;
    }

  public:
    SolverImpl(const IndexVector & nblk, const VectorT<Tb> & maxocc, const VectorT<Tb> & npart,
              const FockBuilder<To, Tb> & fb, const std::vector<std::string> & desc)
      : nblk_(nblk), maxocc_(maxocc), npart_(npart), builder_(fb), desc_(desc) {
      if (nblk_.sum() != maxocc_.size()) throw std::runtime_error("VSHIM: inconsistent block count\n");
      if (nblk_.size() != npart_.size()) throw std::runtime_error("VSHIM: inconsistent particle types\n");
      if ((int) desc_.size() != maxocc_.size()) throw std::runtime_error("VSHIM: inconsistent descriptions\n");
      printf("VSHIM blocks");
      for (int b = 0; b < maxocc_.size(); b++) printf(" [%s|%.6f]", desc_[b].c_str(), (double) maxocc_(b));
      printf(" particles");
      for (int t = 0; t < npart_.size(); t++) printf(" %.10f", (double) npart_(t));
      printf("\n");
    }
    void set_batched_fock_builder(const BatchedFockBuilder<To, Tb> & b) { batched_ = b; }
    void set(const std::string & key, int v) { if (key == "maximum_iterations") maxit_ = std::max(v, 1); }
    void set(const std::string & key, Tb v) { if (key == "convergence_threshold") thr_ = std::min(v, Tb(1e-7)); }
    void set(const std::string &, const std::string &) {}
    void set(const std::string &, const char *) {}
    void fixed_number_of_particles_per_block(const VectorT<Tb> & f) { fixed_ = f; have_fixed_ = true; }
    void initialize_with_fock(const FockMatrix<To> & F) {
      Orbitals<To> C; OrbitalEnergies<Tb> e;
      diagonalize(F, C, e);
      printf("VSHIM guess eigenvalues");
      for (auto & v : e) { printf(" |"); for (Eigen::Index i = 0; i < std::min<Eigen::Index>(v.size(), 3); i++) printf(" %.12e", (double) v(i)); }
      printf("\n");
      orbs_ = C; occs_ = aufbau(e);
    }
    void initialize_with_orbitals(const Orbitals<To> & C, const OrbitalOccupations<Tb> & n) {
      orbs_ = C; occs_ = n;
      double tot = 0, orth = 0;
      for (size_t b = 0; b < C.size(); b++) {
        if (n[b].size()) tot += n[b].sum();
        if (C[b].size()) {
          MatrixT<To> o = C[b].transpose() * C[b];
          orth = std::max(orth, (double) (o - MatrixT<To>::Identity(o.rows(), o.cols())).cwiseAbs().maxCoeff());
        }
      }
      printf("VSHIM loaded occupation-sum %.12f orthonormality-error %.3e\n", tot, orth);
    }
    void print_citation() const {}

    void run() {
      struct H { FockMatrix<To> F; FockMatrix<To> err; };
      std::deque<H> hist;
      FockMatrix<To> F;
      Tb Eold = 0;
      if (const char * s = getenv("VSHIM_MAXIT")) maxit_ = std::max(1, atoi(s));
      for (int it = 0; it < maxit_; it++) {
        iters_ = it + 1;
        auto ret = builder_(std::make_pair(orbs_, occs_));
        energy_ = ret.first; F = ret.second; fock_ = F;
        if (it == 0) { guess_energy_ = energy_; printf("VSHIM first-energy %.12f\n", (double) energy_); }
        FockMatrix<To> err(F.size());
        Tb en = 0;
        for (size_t b = 0; b < F.size(); b++) {
          MatrixT<To> P = dens(b, orbs_, occs_);
          err[b] = F[b] * P - P * F[b];
          if (err[b].size()) en = std::max<Tb>(en, err[b].cwiseAbs().maxCoeff());
        }
        if (!std::isfinite((double) energy_) || !std::isfinite((double) en)) {
          printf("VSHIM non-finite energy or error\n"); break;
        }
        const bool small_e = std::abs(energy_ - Eold) < 1e-8 * std::max<Tb>(1, std::abs(energy_));
        Eold = energy_;
        if (en < thr_ || (en < 50 * thr_ && small_e && it > 30)) {
          // check that the occupations are the aufbau ones of this Fock matrix
          Orbitals<To> C; OrbitalEnergies<Tb> e; diagonalize(F, C, e);
          auto n = aufbau(e);
          Tb d = 0;
          for (size_t b = 0; b < F.size(); b++) if (n[b].size()) d = std::max<Tb>(d, (dens(b, C, n) - dens(b, orbs_, occs_)).cwiseAbs().maxCoeff());
          if (d < 1e-4) { converged_ = true; eps_ = e; break; }
        }
        hist.push_back({F, err});
        if (hist.size() > 10) hist.pop_front();
        const int m = (int) hist.size();
        FockMatrix<To> Fx = F;
        if (m > 1) {
          MatrixT<Tb> B = MatrixT<Tb>::Zero(m + 1, m + 1);
          for (int i = 0; i < m; i++)
            for (int j = 0; j < m; j++)
              for (size_t b = 0; b < F.size(); b++)
                if (F[b].size()) B(i, j) += (hist[i].err[b].array() * hist[j].err[b].array()).sum();
          Tb sc = B.topLeftCorner(m, m).cwiseAbs().maxCoeff();
          if (sc > 0) B.topLeftCorner(m, m) /= sc;
          for (int i = 0; i < m; i++) B(i, m) = B(m, i) = -1;
          VectorT<Tb> rhs = VectorT<Tb>::Zero(m + 1); rhs(m) = -1;
          Eigen::SelfAdjointEigenSolver<MatrixT<Tb>> bs(B);
          VectorT<Tb> c = VectorT<Tb>::Zero(m + 1);
          for (int i = 0; i <= m; i++)
            if (std::abs(bs.eigenvalues()(i)) > 1e-14) c += bs.eigenvectors().col(i) * (bs.eigenvectors().col(i).dot(rhs) / bs.eigenvalues()(i));
          if (c.allFinite()) {
            for (size_t b = 0; b < F.size(); b++) {
              Fx[b].setZero();
              for (int i = 0; i < m; i++) Fx[b] += To(c(i)) * hist[i].F[b];
            }
          }
        }
        Orbitals<To> C; OrbitalEnergies<Tb> e;
        diagonalize(Fx, C, e);
        orbs_ = C; occs_ = aufbau(e); eps_ = e;
      }
      printf("VSHIM result converged=%d energy=%.12f iterations=%d\n", converged_ ? 1 : 0, (double) energy_, iters_);
      printf("VSHIM occupied");
      for (size_t b = 0; b < occs_.size(); b++)
        for (Eigen::Index i = 0; i < occs_[b].size(); i++)
          if (occs_[b](i) > 1e-8 && eps_.size() && eps_[b].size())
            printf(" (%s %.8f %.10f)", desc_[b].c_str(), (double) occs_[b](i), (double) eps_[b](i));
      printf("\n");
      if (const char * s = getenv("VSHIM_FD")) fd_check(strtoull(s, 0, 10));
      if (getenv("VSHIM_BATCH") && batched_) batch_check();
      fflush(stdout);
    }

    // compare a batched evaluation with one-by-one evaluations
    void batch_check() {
      std::vector<DensityMatrix<To, Tb>> v;
      for (int i = 0; i < 5; i++) {
        auto n = occs_;
        for (auto & x : n) x *= (1 - 0.07 * i);
        v.push_back({orbs_, n});
      }
      auto out = batched_(v);
      double dev = out.size() == v.size() ? 0 : 1e300;
      for (size_t i = 0; i < v.size() && i < out.size(); i++) {
        auto one = builder_(v[i]);
        dev = std::max(dev, (double) std::abs(one.first - out[i].first) / std::max(1.0, (double) std::abs(one.first)));
        for (size_t b = 0; b < one.second.size(); b++)
          if (one.second[b].size()) dev = std::max(dev, (double) (one.second[b] - out[i].second[b]).cwiseAbs().maxCoeff() / (1.0 + one.second[b].cwiseAbs().maxCoeff()));
      }
      printf("VSHIM batch deviation %.6e\n", dev);
    }

    static uint64_t sm(uint64_t & x) {
      uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
    }
    void fd_check(uint64_t seed) {
      uint64_t st = seed * 7919 + 13;
      auto uni = [&] { return (double) (sm(st) >> 11) * (1.0 / 9007199254740992.0) * 2 - 1; };
      // start away from the stationary point: rotate orbitals among the lowest few, spread occupations
      Orbitals<To> C0 = orbs_; OrbitalOccupations<Tb> n0 = occs_;
      auto rotate = [&](const Orbitals<To> & C, const std::vector<MatrixT<To>> & K, double h) {
        Orbitals<To> R = C;
        for (size_t b = 0; b < C.size(); b++) {
          if (!C[b].size()) continue;
          const int m = (int) K[b].rows();
          // Cayley transform of the antisymmetric generator: exactly orthogonal
          MatrixT<To> I = MatrixT<To>::Identity(m, m), A = To(h / 2) * K[b];
          MatrixT<To> U = (I - A).inverse() * (I + A);
          R[b].leftCols(m) = C[b].leftCols(m) * U;
        }
        return R;
      };
      auto gen = [&](double amp) {
        std::vector<MatrixT<To>> K(C0.size());
        for (size_t b = 0; b < C0.size(); b++) {
          int m = (int) std::min<Eigen::Index>(C0[b].cols(), 6);
          K[b] = MatrixT<To>::Zero(m, m);
          for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) { K[b](i, j) = amp * uni(); K[b](j, i) = -K[b](i, j); }
        }
        return K;
      };
      // occupation transfers within each particle type (number conserving)
      auto transfer = [&](const OrbitalOccupations<Tb> & n, const std::vector<std::array<double, 5>> & tr, double h) {
        auto r = n;
        for (auto & x : tr) { r[(size_t) x[0]]((Eigen::Index) x[1]) -= h * x[4]; r[(size_t) x[2]]((Eigen::Index) x[3]) += h * x[4]; }
        return r;
      };
      Orbitals<To> C = rotate(C0, gen(0.4), 1.0);
      std::vector<std::array<double, 5>> tr;
      size_t off = 0;
      for (int t = 0; t < nblk_.size(); t++) {
        std::vector<std::array<double, 2>> occd, all;
        for (int k = 0; k < nblk_(t); k++)
          for (Eigen::Index i = 0; i < std::min<Eigen::Index>(n0[off + k].size(), 4); i++) {
            all.push_back({(double) (off + k), (double) i});
            if (n0[off + k](i) > 0.5) occd.push_back({(double) (off + k), (double) i});
          }
        if (!occd.empty() && all.size() > 1) {
          auto a = occd[sm(st) % occd.size()]; auto b = all[sm(st) % all.size()];
          if (a != b) tr.push_back({a[0], a[1], b[0], b[1], 0.25});
        }
        off += nblk_(t);
      }
      OrbitalOccupations<Tb> n = transfer(n0, tr, 1.0);
      auto K = gen(1.0);
      auto base = builder_(std::make_pair(C, n));
      auto E = [&](double h, bool rot, bool occ) {
        return builder_(std::make_pair(rot ? rotate(C, K, h) : C, occ ? transfer(n, tr, h) : n)).first;
      };
      auto dP = [&](bool rot, bool occ) {
        // analytic directional derivative sum_b tr(F_b dP_b), dP by 4th-order difference (P is polynomial-like, cheap and smooth)
        double g = 0;
        const double h = 1e-3;
        const double w[4] = {1.0 / 12, -8.0 / 12, 8.0 / 12, -1.0 / 12};
        const double x[4] = {-2, -1, 1, 2};
        for (int q = 0; q < 4; q++) {
          Orbitals<To> Cq = rot ? rotate(C, K, x[q] * h) : C; auto nq = occ ? transfer(n, tr, x[q] * h) : n;
          for (size_t b = 0; b < C.size(); b++) if (C[b].size()) g += w[q] / h * (base.second[b].array() * dens(b, Cq, nq).array()).sum();
        }
        return g;
      };
      for (int mode = 0; mode < 2; mode++) {
        const bool rot = mode == 0, occ = mode == 1;
        if (occ && tr.empty()) continue;
        const double g = dP(rot, occ);
        const double h = 4e-3;
        const double d1 = (8 * (E(h, rot, occ) - E(-h, rot, occ)) - (E(2 * h, rot, occ) - E(-2 * h, rot, occ))) / (12 * h);
        const double d2 = (E(h, rot, occ) - E(-h, rot, occ)) / (2 * h);
        printf("VSHIM fd mode=%s analytic=%.10e numeric=%.10e spread=%.3e\n", rot ? "rotation" : "occupation", g, d1, std::abs(d1 - d2));
      }
      builder_(std::make_pair(orbs_, occs_));
    }

    Orbitals<To> get_orbitals() const { return orbs_; }
    OrbitalOccupations<Tb> get_orbital_occupations() const { return occs_; }
    OrbitalEnergies<Tb> get_orbital_energies() const { return eps_; }
    FockMatrix<To> get_fock_matrix() const { return fock_; }
    Tb get_energy() const { return energy_; }
    bool converged() const { return converged_; }
  };

#define SELF ((SolverImpl *) p_.get())
  using M = MatrixT<double>; using V = VectorT<double>;
  SolverHandle::SolverHandle(const IndexVector & a, const V & b, const V & c, const FockBuilder<double, double> & d, const std::vector<std::string> & e)
    : p_(new SolverImpl(a, b, c, d, e), [](void * x) { delete (SolverImpl *) x; }) {}
  void SolverHandle::set_batched_fock_builder(const BatchedFockBuilder<double, double> & b) { SELF->set_batched_fock_builder(b); }
  void SolverHandle::set(const std::string & k, int v) { SELF->set(k, v); }
  void SolverHandle::set(const std::string & k, double v) { SELF->set(k, v); }
  void SolverHandle::set(const std::string & k, const std::string & v) { SELF->set(k, v); }
  void SolverHandle::set(const std::string & k, const char * v) { SELF->set(k, v); }
  void SolverHandle::fixed_number_of_particles_per_block(const V & f) { SELF->fixed_number_of_particles_per_block(f); }
  void SolverHandle::initialize_with_fock(const FockMatrix<double> & F) { SELF->initialize_with_fock(F); }
  void SolverHandle::initialize_with_orbitals(const Orbitals<double> & C, const OrbitalOccupations<double> & n) { SELF->initialize_with_orbitals(C, n); }
  void SolverHandle::print_citation() const {}
  void SolverHandle::run() { SELF->run(); }
  Orbitals<double> SolverHandle::get_orbitals() const { return SELF->get_orbitals(); }
  OrbitalOccupations<double> SolverHandle::get_orbital_occupations() const { return SELF->get_orbital_occupations(); }
  OrbitalEnergies<double> SolverHandle::get_orbital_energies() const { return SELF->get_orbital_energies(); }
  FockMatrix<double> SolverHandle::get_fock_matrix() const { return SELF->get_fock_matrix(); }
  double SolverHandle::get_energy() const { return SELF->get_energy(); }
  bool SolverHandle::converged() const { return SELF->converged(); }
}
