// Stand-in for OpenOrbitalOptimizer (absent in this sandbox): the part of its
// interface that HelFEM uses, backed by a small Roothaan/DIIS solver with
// aufbau occupations. It is part of the test harness, not of HelFEM.
//
// Report lines on stdout start with "VSHIM". With VSHIM_FD=<seed> in the
// environment the solver also differentiates the reported total energy
// numerically around the final state and compares with the reported Fock
// matrices.
#pragma once
#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <deque>
#include <functional>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace OpenOrbitalOptimizer {
  using IndexVector = Eigen::VectorXi;
  template <typename T> using MatrixT = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
  template <typename T> using VectorT = Eigen::Matrix<T, Eigen::Dynamic, 1>;
  template <typename T> using Orbitals = std::vector<MatrixT<T>>;
  template <typename T> using OrbitalOccupations = std::vector<VectorT<T>>;
  template <typename T> using OrbitalEnergies = std::vector<VectorT<T>>;
  template <typename T> using FockMatrix = std::vector<MatrixT<T>>;
  template <typename To, typename Tb> using DensityMatrix = std::pair<Orbitals<To>, OrbitalOccupations<Tb>>;
  template <typename To, typename Tb> using FockBuilderReturn = std::pair<Tb, FockMatrix<To>>;
  template <typename To, typename Tb> using FockBuilder = std::function<FockBuilderReturn<To, Tb>(const DensityMatrix<To, Tb> &)>;
  template <typename To, typename Tb>
  using BatchedFockBuilder = std::function<std::vector<FockBuilderReturn<To, Tb>>(const std::vector<DensityMatrix<To, Tb>> &)>;

  // Non-template handle; the solver itself lives in vshim_solver.cpp.
  class SolverHandle {
    std::shared_ptr<void> p_;
  public:
    SolverHandle(const IndexVector &, const VectorT<double> &, const VectorT<double> &, const FockBuilder<double, double> &, const std::vector<std::string> &);
    void set_batched_fock_builder(const BatchedFockBuilder<double, double> &);
    void set(const std::string &, int);
    void set(const std::string &, double);
    void set(const std::string &, const std::string &);
    void set(const std::string &, const char *);
    void fixed_number_of_particles_per_block(const VectorT<double> &);
    void initialize_with_fock(const FockMatrix<double> &);
    void initialize_with_orbitals(const Orbitals<double> &, const OrbitalOccupations<double> &);
    void print_citation() const;
    void run();
    Orbitals<double> get_orbitals() const;
    OrbitalOccupations<double> get_orbital_occupations() const;
    OrbitalEnergies<double> get_orbital_energies() const;
    FockMatrix<double> get_fock_matrix() const;
    double get_energy() const;
    bool converged() const;
  };
  template <typename To, typename Tb> class SCFSolver;
  template <> class SCFSolver<double, double> : public SolverHandle { public: using SolverHandle::SolverHandle; };
}
