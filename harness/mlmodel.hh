// Shape functions of the (multi-)linear interpolation on the reference shapes in
// dimension up to 3, written out per shape, with their derivatives.
#ifndef MLMODEL_HH
#define MLMODEL_HH

struct MLModel
{
  int dim, n;
  double N[8], D[8][3];

  void add(double v, double dx, double dy, double dz) { N[n] = v; D[n][0] = dx; D[n][1] = dy; D[n][2] = dz; ++n; }

  // topology number (construction bits, lowest bit irrelevant), point p
  MLModel(unsigned topo, int d, const double* p) : dim(d), n(0)
  {
    topo >>= 1;
    if (d == 0) add(1, 0, 0, 0);
    if (d == 1) { add(1 - p[0], -1, 0, 0); add(p[0], 1, 0, 0); }
    if (d == 2 && topo == 0) { add(1 - p[0] - p[1], -1, -1, 0); add(p[0], 1, 0, 0); add(p[1], 0, 1, 0); }
    if (d == 2 && topo == 1) {
      double x = p[0], y = p[1];
      add((1-x)*(1-y), -(1-y), -(1-x), 0); add(x*(1-y), 1-y, -x, 0);
      add((1-x)*y, -y, 1-x, 0);            add(x*y, y, x, 0);
    }
    if (d == 3) {
      double x = p[0], y = p[1], z = p[2];
      if (topo == 0) { add(1-x-y-z, -1, -1, -1); add(x, 1, 0, 0); add(y, 0, 1, 0); add(z, 0, 0, 1); }
      if (topo == 1) {          // pyramid: w = 1-z
        double w = 1 - z, u = x/w, v = y/w;
        add((1-u)*(1-v)*w, -(1-v), -(1-u), u*v - 1);
        add(u*(1-v)*w, 1-v, -u, -u*v);
        add((1-u)*v*w, -v, 1-u, -u*v);
        add(u*v*w, v, u, u*v);
        add(z, 0, 0, 1);
      }
      if (topo == 2) {          // prism
        add((1-x-y)*(1-z), -(1-z), -(1-z), -(1-x-y)); add(x*(1-z), 1-z, 0, -x); add(y*(1-z), 0, 1-z, -y);
        add((1-x-y)*z, -z, -z, 1-x-y);                add(x*z, z, 0, x);        add(y*z, 0, z, y);
      }
      if (topo == 3)
        for (int i = 0; i < 8; ++i) {
          double f[3], g[3];
          for (int k = 0; k < 3; ++k) { bool b = (i >> k) & 1; f[k] = b ? p[k] : 1 - p[k]; g[k] = b ? 1 : -1; }
          add(f[0]*f[1]*f[2], g[0]*f[1]*f[2], f[0]*g[1]*f[2], f[0]*f[1]*g[2]);
        }
    }
  }
};

// the inequalities of the reference element, as assumptions on p
inline void mlInside(unsigned topo, int d, const double* p)
{
  topo >>= 1;
  if (d == 2 && topo == 0) vp_assume_ge(1, p[0] + p[1]);
  if (d == 3 && topo == 0) vp_assume_ge(1, p[0] + p[1] + p[2]);
  if (d == 3 && topo == 1) { vp_assume_ge(1, p[0] + p[2]); vp_assume_ge(1, p[1] + p[2]); }
  if (d == 3 && topo == 2) vp_assume_ge(1, p[0] + p[1]);
}

#endif
