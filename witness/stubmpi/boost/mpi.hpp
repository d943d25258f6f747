// stand-in for Boost.MPI: the processes of a communicator are what the analysis says they are
#ifndef VP_STUB_MPI
#define VP_STUB_MPI
#include <vector>
#include <boost/range.hpp>
#include <boost/utility/enable_if.hpp>
#include <boost/range/has_range_iterator.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/range/algorithm/copy.hpp>
extern "C" int vp_rank() noexcept;
extern "C" int vp_world() noexcept;
extern "C" void vp_scatter(int rank, const double *data, long n) noexcept;
extern "C" long vp_gather_size(int rank) noexcept;
extern "C" double vp_gather(int rank, long i) noexcept;
extern "C" void vp_sent(const double *data, long n) noexcept;
extern "C" double vp_reduce(double value, int op) noexcept;
namespace boost { namespace mpi {
struct communicator { int rank() const { return vp_rank(); } int size() const { return vp_world(); } };
template<class T> struct maximum { static const int op = 1; };
template<class T> struct minimum { static const int op = 2; };
template<class T> struct bitwise_and { static const int op = 3; };
template<class T> struct bitwise_or { static const int op = 4; };
template<class T, class O> T all_reduce(const communicator &, const T &v, O) { return vp_reduce(v, O::op); }
template<class T> void scatter(const communicator &, const std::vector<T> &in, T &out, int root) {
  if (vp_rank() == root) { for (size_t i = 0; i < in.size(); ++i) vp_scatter(i, in[i].data(), in[i].size()); out = in[root]; }
  else { long n = vp_gather_size(vp_rank()); out.resize(n); for (long i = 0; i < n; ++i) out[i] = vp_gather(vp_rank(), i); } }
template<class T> void gather(const communicator &, const T &in, std::vector<T> &out, int root) {
  vp_sent(in.data(), in.size());
  if (vp_rank() == root) { out.resize(vp_world()); for (int k = 0; k < vp_world(); ++k) { if (k == root) { out[k] = in; continue; } long n = vp_gather_size(k); out[k].resize(n); for (long i = 0; i < n; ++i) out[k][i] = vp_gather(k, i); } } }
} }
#endif
