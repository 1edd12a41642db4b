// Independent model of the reference polytopes: corners and faces, derived only
// from the prism/cone construction.
#ifndef REFMODEL_HH
#define REFMODEL_HH

struct RefModel
{
  int dim;
  unsigned topo;
  int nc;                            // corners
  int corner[32][5];
  int nf[6];                         // faces per codimension
  unsigned face[6][90];              // corner sets
  unsigned ftopo[6][90];             // topology numbers (lowest bit set for dim > 0)

  // build the polytope with construction bits topo: bit d set: prism over the
  // (d)-dimensional base, otherwise cone (bit 0: both give the line)
  void build(unsigned t, int n)
  {
    dim = 0; topo = 0; nc = 1;
    for (int k = 0; k < 5; ++k) corner[0][k] = 0;
    nf[0] = 1; face[0][0] = 1; ftopo[0][0] = 0;
    for (int d = 0; d < n; ++d) extend(d == 0 || ((t >> d) & 1));
  }

  void extend(bool prism)
  {
    int d = dim;
    int of[6]; unsigned f[6][90], ft[6][90];
    for (int c = 0; c <= d; ++c) {
      of[c] = nf[c];
      for (int i = 0; i < nf[c]; ++i) { f[c][i] = face[c][i]; ft[c][i] = ftopo[c][i]; }
    }
    for (int c = 0; c <= d+1; ++c) {
      int n = 0;
      unsigned bit = 1u << d;
      if (prism) {
        // extruded faces, then bottom, then top
        if (c <= d) for (int i = 0; i < of[c]; ++i) { face[c][n] = f[c][i] | (f[c][i] << nc); ftopo[c][n++] = ft[c][i] | (1u << (d-c)) ; }
        if (c > 0) for (int i = 0; i < of[c-1]; ++i) { face[c][n] = f[c-1][i]; ftopo[c][n++] = ft[c-1][i]; }
        if (c > 0) for (int i = 0; i < of[c-1]; ++i) { face[c][n] = f[c-1][i] << nc; ftopo[c][n++] = ft[c-1][i]; }
      } else {
        // faces of the base, then cones over faces of the base, apex last
        if (c > 0) for (int i = 0; i < of[c-1]; ++i) { face[c][n] = f[c-1][i]; ftopo[c][n++] = ft[c-1][i]; }
        if (c <= d) for (int i = 0; i < of[c]; ++i) { face[c][n] = f[c][i] | (1u << nc); ftopo[c][n++] = ft[c][i] | (d == c ? 1u : 0u); }
        if (c == d+1) { face[c][n] = 1u << nc; ftopo[c][n++] = 0; }
      }
      nf[c] = n;
      (void)bit;
    }
    if (prism) {
      for (int i = 0; i < nc; ++i) { for (int k = 0; k < 5; ++k) corner[nc+i][k] = corner[i][k]; corner[nc+i][d] = 1; }
      nc *= 2;
    } else {
      for (int k = 0; k < 5; ++k) corner[nc][k] = 0;
      corner[nc][d] = 1;
      ++nc;
    }
    topo |= (prism ? 1u << d : 0);
    ++dim;
  }

  int cornerSet(unsigned s, int* out) const
  {
    int n = 0;
    for (int i = 0; i < nc; ++i) if ((s >> i) & 1) out[n++] = i;
    return n;
  }

  double volume() const
  {
    double v = 1;
    for (int d = 1; d < dim; ++d) if (!((topo >> d) & 1)) v /= d+1;
    return v;
  }
  // centre of mass
  void centroid(double* c) const
  {
    for (int d = 0; d < dim; ++d) {
      if (d == 0 || ((topo >> d) & 1)) c[d] = 0.5;
      else {
        for (int k = 0; k < d; ++k) c[k] *= double(d+1)/(d+2);
        c[d] = 1.0/(d+2);
      }
    }
  }
};

#endif
