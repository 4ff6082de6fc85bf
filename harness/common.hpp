// Helpers shared by the harnesses (mesh builders written against the public creation API).
#ifndef VS_COMMON_HPP
#define VS_COMMON_HPP
#include "vs.h"
#include <cmath>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <sstream>
#include <iostream>
#include "viennagrid/forwards.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/element_creation.hpp"
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<1> > P1;
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<2> > P2;
typedef viennagrid::spatial_point<double, viennagrid::cartesian_cs<3> > P3;
static inline P1 in1(const char *n, double r = 10) { return P1(vs_real(n, -r, r)); }
static inline P2 in2(const char *n, double r = 10) { double x = vs_real(n, -r, r), y = vs_real(n, -r, r); return P2(x, y); }
static inline P3 in3(const char *n, double r = 10) { double x = vs_real(n, -r, r), y = vs_real(n, -r, r), z = vs_real(n, -r, r); return P3(x, y, z); }
static inline double dot_(P2 const &a, P2 const &b) { return a[0] * b[0] + a[1] * b[1]; }
static inline double dot_(P3 const &a, P3 const &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static inline double crs_(P2 const &a, P2 const &b) { return a[0] * b[1] - a[1] * b[0]; }
static inline P3 crs_(P3 const &a, P3 const &b) { return P3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
static inline double det_(P3 const &a, P3 const &b, P3 const &c) { return dot_(a, crs_(b, c)); }
static inline double area2_(P2 const &a, P2 const &b, P2 const &c) { return crs_(P2(b - a), P2(c - a)); }   // twice the signed area
// vertex handles of a mesh by creation order
template <typename M> struct VH { typedef typename viennagrid::result_of::vertex_handle<M>::type H; typedef std::vector<H> V; };
template <typename M, typename P> typename VH<M>::H addv(M &m, P const &p) { return viennagrid::make_vertex(m, p); }
// create an element of tag T from a list of vertex handles
template <typename T, typename M> typename viennagrid::result_of::handle<M, T>::type adde(M &m, typename VH<M>::V const &v, const int *ix, int n)
{ typename VH<M>::V h; for (int i = 0; i < n; ++i) h.push_back(v[ix[i]]); return viennagrid::make_element<T>(m, h.begin(), h.end()); }
template <typename M> typename viennagrid::result_of::cell_handle<M>::type addc(M &m, typename VH<M>::V const &v, const int *ix, int n)
{ typename VH<M>::V h; for (int i = 0; i < n; ++i) h.push_back(v[ix[i]]); return viennagrid::make_cell(m, h.begin(), h.end()); }
#endif
