// Topology: boundary elements of cells, sharing between cells, orientation, ids, unique vertices.
// BOUND: one or two cells of every type (line, triangle, quadrilateral, polygon with 3-6 corners, tetrahedron, hexahedron); vertex ids arbitrary distinct integers in [0,63] where stated, hexahedra with one arbitrary id among seven fixed ones; the second cell uses any choice/order of the vertices of the first plus new ones (hexahedra: every gluing of two faces, up to reflection)
#include "common.hpp"
#include "viennagrid/mesh/mesh.hpp"
using namespace viennagrid;
typedef std::set<int> IS; typedef std::set<IS> ISS;
// positions (in the list of created vertices) of the vertices of an element
template <typename M, typename E> static std::vector<int> pos(M &m, typename VH<M>::V const &h, E &e)
{
  typedef typename result_of::vertex_range<E>::type R; typedef typename result_of::iterator<R>::type I; R r(e); std::vector<int> o;
  for (I it = r.begin(); it != r.end(); ++it) { int k = -1; for (std::size_t i = 0; i < h.size(); ++i) if (it.handle() == h[i]) k = (int)i; o.push_back(k); } return o;
}
static IS st(std::vector<int> const &v) { return IS(v.begin(), v.end()); }
template <typename T, typename M> static ISS all_of(M &m, typename VH<M>::V const &h, std::size_t &count)
{ typedef typename result_of::element_range<M, T>::type R; typedef typename result_of::iterator<R>::type I; R r(m); ISS s; count = 0; for (I it = r.begin(); it != r.end(); ++it, ++count) s.insert(st(pos(m, h, *it))); return s; }
// every T-element of the cell: exactly the expected vertex sets, each stored once
template <typename T, typename M, typename C> static void bnd(M &m, typename VH<M>::V const &h, C &c, ISS const &expect)
{
  typedef typename result_of::element_range<C, T>::type R; typedef typename result_of::iterator<R>::type I; R r(c); ISS s; std::set<const void *> ptr;
  for (I it = r.begin(); it != r.end(); ++it) { s.insert(st(pos(m, h, *it))); ptr.insert(&*it); }
  CHECKM(r.size() == expect.size(), "number of boundary elements"); CHECKM(s == expect, "boundary elements are the faces of the reference cell"); CHECKM(ptr.size() == expect.size(), "boundary elements are distinct");
}
static ISS subsets(std::vector<int> const &v, unsigned k) { ISS r; for (unsigned b = 0; b < (1u << v.size()); ++b) { IS s; for (unsigned i = 0; i < v.size(); ++i) if (b >> i & 1) s.insert(v[i]); if (s.size() == k) r.insert(s); } return r; }
// faces of the d-cube in lexicographic order with k free directions
static ISS cube(std::vector<int> const &v, int d, int k)
{ ISS r; for (int dirs = 0; dirs < (1 << d); ++dirs) if (__builtin_popcount(dirs) == k) for (int base = 0; base < (1 << d); ++base) if (!(base & dirs)) { IS s; for (int x = 0; x < (1 << d); ++x) if ((x & ~dirs) == base) s.insert(v[x]); r.insert(s); } return r; }
static ISS join(ISS a, ISS const &b) { a.insert(b.begin(), b.end()); return a; }
template <typename T, typename M> static void mesh_has(M &m, typename VH<M>::V const &h, ISS const &expect)
{ std::size_t n; ISS s = all_of<T>(m, h, n); CHECKM(n == expect.size(), "every boundary element is stored once in the mesh"); CHECKM(s == expect, "mesh holds exactly the boundary elements of its cells"); }
template <typename T, typename M> static void ids_ok(M &m)
{ typedef typename result_of::element_range<M, T>::type R; typedef typename result_of::iterator<R>::type I; R r(m); std::set<int> s; for (I it = r.begin(); it != r.end(); ++it) { s.insert((int)(*it).id().get()); CHECKM(&*viennagrid::find(m, (*it).id()) == &*it, "an element is found by its id"); CHECKM(&dereference_handle(m, it.handle()) == &*it, "an element is found by its handle"); } CHECKM(s.size() == r.size(), "ids are unique"); if (!s.empty()) { CHECKM(*s.begin() == 0, "ids count from 0"); CHECKM(*s.rbegin() == (int)r.size() - 1, "ids are contiguous"); } }
static std::vector<int> iota_(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
// vertices with arbitrary distinct ids
template <typename M> static void sym_vertices(M &m, typename VH<M>::V &h, int n, bool increasing = false)
{
  typedef typename result_of::element<M, vertex_tag>::type::id_type ID; std::vector<int> id;
  for (int i = 0; i < n; ++i) { int k = vs_int("id", 0, 63); if (increasing) { if (i) vs_assume(k > id.back()); } else for (int j = 0; j < i; ++j) vs_assume(k != id[j]); id.push_back(k); }
  for (int i = 0; i < n; ++i) h.push_back(make_vertex_with_id(m, ID(id[i]), typename result_of::point<M>::type()));
}
// eight vertices, one of them (any) with an arbitrary id among the concrete odd ids of the others
template <typename M> static void one_symbolic(M &m, typename VH<M>::V &h)
{
  typedef typename result_of::element<M, vertex_tag>::type::id_type ID; int k = vs_pick("which", vs_tier() ? 8 : 3); if (!vs_tier()) k = k == 0 ? 0 : k == 1 ? 3 : 6; int x = vs_int("id", 0, 16); for (int i = 0; i < 8; ++i) if (i != k) vs_assume(x != 2 * i + 1);
  for (int i = 0; i < 8; ++i) h.push_back(make_vertex_with_id(m, ID(i == k ? x : 2 * i + 1), typename result_of::point<M>::type()));
}
// the local vertex order of a boundary element within its host is the reference order, whatever cell created it first
template <typename T, typename M, typename C> static void local_order(M &m, typename VH<M>::V const &h, C &c, std::vector<std::vector<int> > const &ref)
{
  std::vector<int> cv = pos(m, h, c); typedef typename result_of::element_range<C, T>::type R; typedef typename result_of::iterator<R>::type I; R r(c); std::size_t k = 0;
  for (I it = r.begin(); it != r.end(); ++it, ++k) for (std::size_t j = 0; j < ref[k].size(); ++j) CHECKM(local_vertex(c, it.handle(), j) == h[cv[ref[k][j]]], "local vertex order of a boundary element");
}
static std::vector<std::vector<int> > lex(int n, int k) { std::vector<std::vector<int> > r; std::vector<int> c; for (int i = 0; i < k; ++i) c.push_back(i); while (true) { r.push_back(c); int i = k - 1; while (i >= 0 && c[i] == n - k + i) --i; if (i < 0) break; ++c[i]; for (int j = i + 1; j < k; ++j) c[j] = c[j - 1] + 1; } return r; }

// ---- single cells with arbitrary vertex ids
VS_HARNESS(triangle_ids)
{ triangular_2d_mesh m; VH<triangular_2d_mesh>::V h; sym_vertices(m, h, 3); std::vector<int> v = iota_(3); result_of::cell<triangular_2d_mesh>::type &c = dereference_handle(m, addc(m, h, &v[0], 3)); bnd<line_tag>(m, h, c, subsets(v, 2)); CHECKM(st(pos(m, h, c)) == st(v) && vertices(c).size() == v.size(), "vertices of the cell"); mesh_has<line_tag>(m, h, subsets(v, 2)); local_order<line_tag>(m, h, c, lex(3, 2)); }
VS_HARNESS(tetrahedron_ids)
{ typedef tetrahedral_3d_mesh M; M m; VH<M>::V h; sym_vertices(m, h, 4); std::vector<int> v = iota_(4); result_of::cell<M>::type &c = dereference_handle(m, addc(m, h, &v[0], 4)); bnd<line_tag>(m, h, c, subsets(v, 2)); bnd<triangle_tag>(m, h, c, subsets(v, 3)); mesh_has<line_tag>(m, h, subsets(v, 2)); mesh_has<triangle_tag>(m, h, subsets(v, 3)); local_order<line_tag>(m, h, c, lex(4, 2)); local_order<triangle_tag>(m, h, c, lex(4, 3));
  typedef result_of::element_range<M, triangle_tag>::type R; R r(m); for (result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) bnd<line_tag>(m, h, *it, subsets(pos(m, h, *it), 2)); }
VS_HARNESS(quadrilateral_ids)
{ typedef quadrilateral_2d_mesh M; M m; VH<M>::V h; sym_vertices(m, h, 4); std::vector<int> v = iota_(4); result_of::cell<M>::type &c = dereference_handle(m, addc(m, h, &v[0], 4)); bnd<line_tag>(m, h, c, cube(v, 2, 1)); mesh_has<line_tag>(m, h, cube(v, 2, 1)); CHECKM(st(pos(m, h, c)) == st(v) && vertices(c).size() == v.size(), "vertices of the cell"); }
VS_HARNESS(hexahedron_ids)
{ typedef hexahedral_3d_mesh M; M m; VH<M>::V h; one_symbolic(m, h); std::vector<int> v = iota_(8); if (vs_pick("reverse", 2)) std::reverse(v.begin(), v.end()); result_of::cell<M>::type &c = dereference_handle(m, addc(m, h, &v[0], 8)); bnd<line_tag>(m, h, c, cube(v, 3, 1)); bnd<quadrilateral_tag>(m, h, c, cube(v, 3, 2)); mesh_has<line_tag>(m, h, cube(v, 3, 1)); mesh_has<quadrilateral_tag>(m, h, cube(v, 3, 2)); ids_ok<line_tag>(m); ids_ok<quadrilateral_tag>(m);
  // the edges of a face of the cell are edges of the cell
  typedef result_of::element_range<M, quadrilateral_tag>::type R; R r(m); ISS all = cube(v, 3, 1); for (result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) bnd<line_tag>(m, h, *it, cube(pos(m, h, *it), 2, 1)); mesh_has<line_tag>(m, h, all); }
VS_HARNESS(line_cell)
{ typedef line_2d_mesh M; M m; VH<M>::V h; for (int i = 0; i < 4; ++i) h.push_back(addv(m, P2(i, 0))); int a[2] = { vs_pick("a", 4), vs_pick("b", 4) }; vs_assume(a[0] != a[1]); result_of::cell<M>::type &c = dereference_handle(m, addc(m, h, a, 2)); std::vector<int> p = pos(m, h, c); CHECK(p.size() == 2); CHECK(p[0] == a[0]); CHECK(p[1] == a[1]); ids_ok<line_tag>(m); ids_ok<vertex_tag>(m); }
VS_HARNESS(polygon_cell)
{
  typedef polygonal_2d_mesh M; M m; VH<M>::V h; int n = 3 + vs_pick("n", 4); for (int i = 0; i < n; ++i) h.push_back(addv(m, P2(i, i * i))); std::vector<int> v = iota_(n); std::swap(v[vs_pick("i", 3)], v[vs_pick("j", 3)]);
  result_of::cell<M>::type &c = dereference_handle(m, addc(m, h, &v[0], n)); ISS e; for (int i = 0; i < n; ++i) { IS s; s.insert(v[i]); s.insert(v[(i + 1) % n]); e.insert(s); } bnd<line_tag>(m, h, c, e); CHECKM(st(pos(m, h, c)) == st(v) && vertices(c).size() == v.size(), "vertices of the cell"); mesh_has<line_tag>(m, h, e); std::vector<int> p = pos(m, h, c); CHECKM(p == v, "vertices of the polygon keep their order"); ids_ok<line_tag>(m);
}
VS_HARNESS(two_polygons)
{ // sharing one edge in either direction
  typedef polygonal_2d_mesh M; M m; VH<M>::V h; for (int i = 0; i < 7; ++i) h.push_back(addv(m, P2(i, i * i))); int a[4] = { 0, 1, 2, 3 }; int s = vs_pick("edge", 4), d = vs_pick("dir", 2); int x = a[s], y = a[(s + 1) % 4]; if (d) std::swap(x, y); int b[5] = { x, y, 4, 5, 6 }; addc(m, h, a, 4); result_of::cell<M>::type &c = dereference_handle(m, addc(m, h, b, 5));
  ISS e, f; for (int i = 0; i < 4; ++i) { IS q; q.insert(a[i]); q.insert(a[(i + 1) % 4]); e.insert(q); } for (int i = 0; i < 5; ++i) { IS q; q.insert(b[i]); q.insert(b[(i + 1) % 5]); f.insert(q); } bnd<line_tag>(m, h, c, f); mesh_has<line_tag>(m, h, join(e, f)); ids_ok<line_tag>(m); ids_ok<polygon_tag>(m);
}
// ---- two cells sharing vertices
template <typename M> static void pick_second(std::vector<int> &b, int k, int pool) { for (int i = 0; i < k; ++i) { int x = vs_pick("w", pool); for (int j = 0; j < i; ++j) vs_assume(b[j] != x); b.push_back(x); } }
VS_HARNESS(two_triangles)
{
  typedef triangular_2d_mesh M; M m; VH<M>::V h; for (int i = 0; i < 6; ++i) h.push_back(addv(m, P2(i, 0))); std::vector<int> a = iota_(3), b; pick_second<M>(b, 3, 5); result_of::cell_handle<M>::type h0 = addc(m, h, &a[0], 3), h1 = addc(m, h, &b[0], 3); result_of::cell<M>::type &c0 = dereference_handle(m, h0), &c1 = dereference_handle(m, h1);
  bnd<line_tag>(m, h, c0, subsets(a, 2)); bnd<line_tag>(m, h, c1, subsets(b, 2)); mesh_has<line_tag>(m, h, join(subsets(a, 2), subsets(b, 2))); ids_ok<line_tag>(m); ids_ok<vertex_tag>(m); ids_ok<triangle_tag>(m); local_order<line_tag>(m, h, c0, lex(3, 2)); local_order<line_tag>(m, h, c1, lex(3, 2)); CHECK(cells(m).size() == 2); CHECKM(pos(m, h, c1) == b, "a cell keeps the order of its vertices");
}
VS_HARNESS(two_tetrahedra)
{
  typedef tetrahedral_3d_mesh M; M m; VH<M>::V h; for (int i = 0; i < 6; ++i) h.push_back(addv(m, P3(i, 0, 0))); std::vector<int> a = iota_(4), b; pick_second<M>(b, 4, 5); result_of::cell_handle<M>::type h0 = addc(m, h, &a[0], 4), h1 = addc(m, h, &b[0], 4); result_of::cell<M>::type &c0 = dereference_handle(m, h0), &c1 = dereference_handle(m, h1);
  bnd<line_tag>(m, h, c1, subsets(b, 2)); bnd<triangle_tag>(m, h, c1, subsets(b, 3)); mesh_has<line_tag>(m, h, join(subsets(a, 2), subsets(b, 2))); mesh_has<triangle_tag>(m, h, join(subsets(a, 3), subsets(b, 3))); ids_ok<line_tag>(m); ids_ok<triangle_tag>(m); ids_ok<tetrahedron_tag>(m); local_order<triangle_tag>(m, h, c0, lex(4, 3)); local_order<triangle_tag>(m, h, c1, lex(4, 3)); local_order<line_tag>(m, h, c1, lex(4, 2));
}
VS_HARNESS(two_quadrilaterals)
{ // glued along any edge of the first, any edge position and direction in the second
  typedef quadrilateral_2d_mesh M; M m; VH<M>::V h; for (int i = 0; i < 6; ++i) h.push_back(addv(m, P2(i, 0))); static const int E[4][2] = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 2, 3 } }; int e = vs_pick("e", 4), f = vs_pick("f", 4), d = vs_pick("d", 2); std::vector<int> a = iota_(4), b(4, -1); b[E[f][0]] = E[e][d]; b[E[f][1]] = E[e][1 - d]; int nx = 4; for (int i = 0; i < 4; ++i) if (b[i] < 0) b[i] = nx++;
  addc(m, h, &a[0], 4); result_of::cell<M>::type &c = dereference_handle(m, addc(m, h, &b[0], 4)); bnd<line_tag>(m, h, c, cube(b, 2, 1)); mesh_has<line_tag>(m, h, join(cube(a, 2, 1), cube(b, 2, 1))); ids_ok<line_tag>(m); static const int L[4][2] = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 2, 3 } }; std::vector<std::vector<int> > ref; for (int i = 0; i < 4; ++i) ref.push_back(std::vector<int>(L[i], L[i] + 2)); local_order<line_tag>(m, h, c, ref);
}
VS_HARNESS(two_hexahedra)
{ // the second shares a face of the first: face f, glued to the second's face g, in each of the 4 rotations
  typedef hexahedral_3d_mesh M; M m; VH<M>::V h; for (int i = 0; i < 12; ++i) h.push_back(addv(m, P3(i, 0, 0))); int fd = vs_pick("fdir", 3), fs = vs_pick("fside", 2), gd = vs_tier() ? vs_pick("gdir", 3) : 0, gs = vs_pick("gside", 2), rot = vs_pick("rot", 4), mir = vs_pick("mirror", 2); std::vector<int> a = iota_(8), b(8, -1);
  int q[4], k = 0, g[4], l = 0; for (int i = 0; i < 8; ++i) { if ((i >> fd & 1) == fs) q[k++] = i; if ((i >> gd & 1) == gs) g[l++] = i; } static const int cyc[4] = { 0, 1, 3, 2 }; for (int i = 0; i < 4; ++i) b[g[cyc[i]]] = q[cyc[mir ? (8 - i + rot) % 4 : (i + rot) % 4]]; int nx = 8; for (int i = 0; i < 8; ++i) if (b[i] < 0) b[i] = nx++;
  addc(m, h, &a[0], 8); result_of::cell<M>::type &c = dereference_handle(m, addc(m, h, &b[0], 8)); bnd<line_tag>(m, h, c, cube(b, 3, 1)); bnd<quadrilateral_tag>(m, h, c, cube(b, 3, 2)); mesh_has<line_tag>(m, h, join(cube(a, 3, 1), cube(b, 3, 1))); mesh_has<quadrilateral_tag>(m, h, join(cube(a, 3, 2), cube(b, 3, 2)));
  static const int L[6][4] = { { 0, 1, 2, 3 }, { 0, 1, 4, 5 }, { 0, 2, 4, 6 }, { 1, 3, 5, 7 }, { 2, 3, 6, 7 }, { 4, 5, 6, 7 } }; std::vector<std::vector<int> > ref; for (int i = 0; i < 6; ++i) ref.push_back(std::vector<int>(L[i], L[i] + 4)); local_order<quadrilateral_tag>(m, h, c, ref); ids_ok<quadrilateral_tag>(m); ids_ok<line_tag>(m);
}
VS_HARNESS(edges_first)
{ // explicitly created edges/triangles are reused by the cells, whatever their orientation
  typedef tetrahedral_3d_mesh M; M m; VH<M>::V h; for (int i = 0; i < 4; ++i) h.push_back(addv(m, P3(i, 0, 0))); int x = vs_pick("x", 4), y = vs_pick("y", 4), z = vs_pick("z", 4); vs_assume(x != y && y != z && x != z);
  result_of::handle<M, line_tag>::type e = make_line(m, h[x], h[y]); result_of::handle<M, triangle_tag>::type t = make_triangle(m, h[x], h[y], h[z]); CHECK(make_line(m, h[y], h[x]) == e); CHECK(make_triangle(m, h[z], h[x], h[y]) == t);
  std::vector<int> v = iota_(4); result_of::cell<M>::type &c = dereference_handle(m, make_tetrahedron(m, h[0], h[1], h[2], h[3])); mesh_has<line_tag>(m, h, subsets(v, 2)); mesh_has<triangle_tag>(m, h, subsets(v, 3)); local_order<triangle_tag>(m, h, c, lex(4, 3)); local_order<line_tag>(m, h, c, lex(4, 2)); ids_ok<line_tag>(m); ids_ok<triangle_tag>(m);
  bool found = false; for (int i = 0; i < 6; ++i) found |= (&lines(c)[i] == &dereference_handle(m, e)); CHECKM(found, "existing edge is reused"); found = false; for (int i = 0; i < 4; ++i) found |= (&triangles(c)[i] == &dereference_handle(m, t)); CHECKM(found, "existing triangle is reused");
}
VS_HARNESS(plc_cell)
{ // a piecewise linear complex: its vertices are the loose vertices and the end points of its lines, once each
  typedef plc_3d_mesh M; M m; VH<M>::V h; for (int i = 0; i < 5; ++i) h.push_back(addv(m, P3(i, 0, 0))); typedef result_of::handle<M, line_tag>::type LH; std::vector<LH> l; IS ex; for (int i = 0; i < 2; ++i) { int x = vs_pick("x", 4), y = vs_pick("y", 4); vs_assume(x != y); l.push_back(make_line(m, h[x], h[y])); ex.insert(x); ex.insert(y); }
  int lo = vs_pick("loose", 5); ex.insert(lo); P3 hole = in3("hole"); result_of::handle<M, plc_tag>::type p = make_plc(m, l.begin(), l.end(), &h[lo], &h[lo] + 1, &hole, &hole + 1); result_of::element<M, plc_tag>::type &e = dereference_handle(m, p);
  std::vector<int> vs = pos(m, h, e); CHECK(vs.size() == ex.size()); CHECK(st(vs) == ex); CHECK(lines(e).size() == (l[0] == l[1] ? 1u : 2u)); CHECK(hole_points(e).size() == 1); EQ(hole_points(e)[0][0], hole[0]); EQ(hole_points(e)[0][2], hole[2]);
}
// ---- ids and vertices
VS_HARNESS(ids_mixed)
{ // explicit and generated ids never collide
  typedef triangular_2d_mesh M; typedef result_of::element<M, vertex_tag>::type::id_type ID; M m; int pre = vs_pick("pre", 3); for (int i = 0; i < pre; ++i) addv(m, P2(i, 0)); int k = vs_int("id", 0, 20); vs_assume(k >= pre); make_vertex_with_id(m, ID(k), P2(9, 9)); for (int i = 0; i < 3; ++i) addv(m, P2(i, 1)); int k2 = vs_int("id2", 24, 40); make_vertex_with_id(m, ID(k2), P2(8, 8)); addv(m, P2(0, 2));
  std::size_t n = vertices(m).size(); CHECK(n == (std::size_t)pre + 6); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < i; ++j) CHECKM(vertices(m)[i].id() != vertices(m)[j].id(), "ids are unique");
  CHECKM(point(*viennagrid::find(m, ID(k)))[0] == 9, "vertex found by its id"); CHECKM(point(*viennagrid::find(m, ID(k2)))[0] == 8, "vertex found by its id");
}
VS_HARNESS(cell_ids_mixed)
{
  typedef triangular_2d_mesh M; typedef result_of::cell<M>::type::id_type ID; M m; VH<M>::V h; for (int i = 0; i < 5; ++i) h.push_back(addv(m, P2(i, 0))); int pre = vs_pick("pre", 2); int v[3] = { 0, 1, 2 }; for (int i = 0; i < pre; ++i) addc(m, h, v, 3); int k = vs_int("id", 0, 20); vs_assume(k >= pre); make_cell_with_id(m, h.begin() + 1, h.begin() + 4, ID(k)); addc(m, h, v, 3);
  std::size_t n = cells(m).size(); CHECK(n == (std::size_t)pre + 2); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < i; ++j) CHECKM(cells(m)[i].id() != cells(m)[j].id(), "ids are unique"); CHECK(cells(m)[pre].id() == ID(k));
}
VS_HARNESS(unique_vertex)
{ // an existing vertex within the tolerance is returned, otherwise a new one is made
  typedef triangular_2d_mesh M; M m; P2 p[2] = { in2("p", 4), in2("p", 4) }; VH<M>::H h[2] = { addv(m, p[0]), addv(m, p[1]) }; P2 q = in2("q", 4); double t = vs_real("tol", -1, 2); VH<M>::H r = make_unique_vertex(m, q, t); P2 d0 = q - p[0], d1 = q - p[1]; double a = dot_(d0, d0), b = dot_(d1, d1);
  bool n0 = t > 0 && a < t * t - 1e-6, n1 = t > 0 && b < t * t - 1e-6, f0 = t <= 0 || a > t * t + 1e-6, f1 = t <= 0 || b > t * t + 1e-6;
  if (n0) CHECKM(r == h[0], "first vertex within the tolerance is returned"); else if (f0 && n1) CHECKM(r == h[1], "vertex within the tolerance is returned"); else if (f0 && f1) { CHECKM(vertices(m).size() == 3, "a new vertex is made"); EQ(point(m, r)[0], q[0]); EQ(point(m, r)[1], q[1]); CHECK(r != h[0]); CHECK(r != h[1]); }
  if (n0 || n1) CHECKM(vertices(m).size() == 2, "no new vertex"); EQ(point(m, h[0])[0], p[0][0]); EQ(point(m, h[1])[1], p[1][1]);
}
VS_HARNESS(points_kept)
{ typedef tetrahedral_3d_mesh M; M m; VH<M>::V h; P3 p[5]; int v[4] = { 0, 1, 2, 3 }, w[4] = { 4, 3, 1, 2 }; for (int i = 0; i < 4; ++i) h.push_back(addv(m, p[i] = in3("p"))); addc(m, h, v, 4); h.push_back(addv(m, p[4] = in3("p"))); result_of::cell<M>::type &c = dereference_handle(m, addc(m, h, w, 4)); for (int i = 0; i < 5; ++i) for (int k = 0; k < 3; ++k) EQ(point(m, h[i])[k], p[i][k]); for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) EQ(point(vertices(c)[i])[k], p[w[i]][k]); }
