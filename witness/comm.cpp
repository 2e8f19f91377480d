// Instantiations of the communication wrappers for every element type and operation they accept.
// Never executed: parsed together with the repository's headers and analysed.
#include <Kokkos_Core.hpp>
#include "mpi/communicator.hpp"
#include "mpi/mpi_type.hpp"
#include "la/mvector.hpp"

namespace witness {
using namespace nlcglib;
using key = std::pair<int, int>;
using vec = Kokkos::View<double*, Kokkos::HostSpace>;

MPI_Datatype t_double() { return mpi_type<double>::type(); }
MPI_Datatype t_cplx() { return mpi_type<std::complex<double>>::type(); }
MPI_Datatype t_kcplx() { return mpi_type<Kokkos::complex<double>>::type(); }
MPI_Datatype t_char() { return mpi_type<char>::type(); }
MPI_Datatype t_int() { return mpi_type<int>::type(); }
MPI_Datatype t_key() { return mpi_type<key>::type(); }
MPI_Datatype t_keydouble() { return mpi_type<std::pair<key, double>>::type(); }
MPI_Datatype t_keyint() { return mpi_type<std::pair<key, int>>::type(); }
MPI_Datatype t_keycplx() { return mpi_type<std::pair<key, std::complex<double>>>::type(); }
MPI_Datatype t_intdouble() { return mpi_type<std::pair<int, double>>::type(); }
MPI_Datatype t_doubleint() { return mpi_type<std::pair<double, int>>::type(); }
MPI_Datatype t_charint() { return mpi_type<std::pair<char, int>>::type(); }

double r_double(Communicator& c, double v, mpi_op op) { return c.allreduce(v, op); }
int r_int(Communicator& c, int v, mpi_op op) { return c.allreduce(v, op); }
double r_double_const(const Communicator& c, const double& v, mpi_op op) { return c.allreduce(v, op); }

void g_double(Communicator& c, double* b, int n) { c.allgather(b, n); }
void g_int(Communicator& c, int* b, int n) { c.allgather(b, n); }
void gv_double(Communicator& c, double* b, const std::vector<int>& n) { c.allgather(b, n); }
void gv_key(Communicator& c, key* b, const std::vector<int>& n) { c.allgather(b, n); }
void gd_double(Communicator& c, double* b, const std::vector<int>& n, const std::vector<int>& d) { c.allgather(b, n, d); }
void gd_cplx(Communicator& c, std::complex<double>* b, const std::vector<int>& n, const std::vector<int>& d) { c.allgather(b, n, d); }

std::vector<std::vector<double>> vv_double(Communicator& c, const std::vector<double>& v) { return c.allgather(v); }
std::vector<std::vector<int>> vv_int(Communicator& c, const std::vector<int>& v) { return _allgather(v, c); }
std::vector<std::vector<key>> vv_key(Communicator& c, const std::vector<key>& v) { return _allgather(v, c); }

mvector<double> m_scalar(const mvector<double>& v) { return v.allgather(); }
mvector<double> m_scalar_on(const mvector<double>& v, Communicator& c) { return v.allgather(c); }
mvector<int> m_int(const mvector<int>& v) { return v.allgather(); }
mvector<vec> m_view(const mvector<vec>& v) { return v.allgather(); }
mvector<vec> m_view_on(const mvector<vec>& v, Communicator& c) { return v.allgather(c); }

int size_of(Communicator& c) { return c.size(); }
int rank_of(Communicator& c) { return c.rank(); }
void barrier_on(Communicator& c) { c.barrier(); }
}  // namespace witness
