// C25: alignment of a cloud with a plane against the rigid motion determined by the plane and its inliers.
#include "vmon.h"

#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>

using namespace vmon;
using rofl::Vector4;

template <typename P>
static void run(uint64_t idx, Rng& r) {
  typedef pcl::PointCloud<P> Cloud;
  rofl::PointCloudPlaneAligner<P> al;
  int rounds = (int)r.range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    // plane n.p + d = 0, |n| = 1
    double n[3], d, len = 0;
    while (len < 1e-3) {
      for (auto& x : n) x = r.chance(0.25) ? (double)r.range(-1, 1) : r.uni(-1, 1);
      len = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
    }
    for (auto& x : n) x /= len;
    d = r.chance(0.15) ? 0.0 : r.uni(-5, 5);
    if (d != 0 && std::fabs(d) < 0.01) d = 0.01;
    double scale = r.chance(0.5) ? 1.0 : std::pow(10.0, r.uni(-2, 2)) * (r.chance(0.5) ? 1 : -1);
    double tol = r.chance(0.3) ? 0.02 : r.uni(0.01, 0.5);
    Vector4 coeff((float)(n[0] * scale), (float)(n[1] * scale), (float)(n[2] * scale), (float)(d * scale));
    // the plane as given in single precision
    long double cn = sqrtl((long double)coeff(0) * coeff(0) + (long double)coeff(1) * coeff(1) + (long double)coeff(2) * coeff(2));
    long double flip = coeff(3) < 0 ? -1 : 1, N[3], D = flip * coeff(3) / cn;
    for (int k = 0; k < 3; ++k) N[k] = flip * coeff(k) / cn;

    double unit = r.chance(0.3) ? r.pick(std::vector<double>{0.01, 0.1, 20, 1000}) : 1.0;
    tol *= unit;
    d *= unit, coeff(3) *= (float)unit, D = flip * coeff(3) / cn;
    typename Cloud::Ptr cloud(new Cloud);
    cloud->header.frame_id = r.chance(0.5) ? "sensor" : "";
    int np = (int)r.range(0, r.chance(0.03) ? 3000 : 60), kind = (int)r.below(4);
    long double sum[3] = {0, 0, 0};
    int inl = 0, bad = 0;
    double maxc = unit;
    for (int i = 0; i < np; ++i) {
      double p[3] = {unit * r.uni(-8, 8), unit * r.uni(-8, 8), unit * r.uni(-8, 8)};
      double h = p[0] * n[0] + p[1] * n[1] + p[2] * n[2] + d;
      double off = kind == 0 ? 0 : kind == 1 ? r.uni(-1, 1) * tol * 0.9 : kind == 2 ? r.uni(-3, 3) * tol : h;
      if (r.chance(0.15)) off = h;
      for (int k = 0; k < 3; ++k) p[k] += (off - h) * n[k];
      P q;
      q.x = (float)p[0], q.y = (float)p[1], q.z = (float)p[2];
      if (r.chance(0.03)) q.x = q.y = q.z = 0;
      else if (r.chance(0.03)) (r.chance(0.5) ? q.x : q.z) = 0;
      if (r.chance(0.03)) {
        q.x = std::numeric_limits<float>::quiet_NaN();
        if (r.chance(0.5)) q.y = q.z = q.x;
        cloud->is_dense = false;
        bad++;
      } else {
        long double dist = fabsl(N[0] * q.x + N[1] * q.y + N[2] * q.z + D);
        if (fabsl(dist - tol) < 1e-4 * unit) continue;  // undecidable in single precision
        if (dist < tol) sum[0] += q.x, sum[1] += q.y, sum[2] += q.z, inl++;
        for (float v : {q.x, q.y, q.z}) maxc = std::max(maxc, (double)std::fabs(v));
      }
      cloud->push_back(q);
    }
    if (cloud->size() % 2 == 0 && cloud->size() && r.chance(0.3)) cloud->width = cloud->size() / 2, cloud->height = 2;
    else cloud->width = cloud->size(), cloud->height = 1;
    if (bad) cloud->is_dense = false;
    const Cloud copy = *cloud;
    std::string what = cat("plane (", coeff(0), ",", coeff(1), ",", coeff(2), ",", coeff(3), ") tolerance ", tol, ", ", cloud->size(), " points, ", inl, " inliers, ", bad, " invalid, round ", round);
    op("compute");
    al.setInputCloud(cloud);
    al.setPlaneCoeffs(coeff);
    al.setPlaneTol((float)tol);
    al.compute();
    auto T = al.getTransform();
    Vector4 pl = al.getPlaneCoeffs();
    CHECK(pl(3) >= 0, "facing", "the plane does not look toward the origin (offset ", pl(3), "): ", what);
    // the plane is the same, whatever its scale
    long double pn = sqrtl((long double)pl(0) * pl(0) + (long double)pl(1) * pl(1) + (long double)pl(2) * pl(2)), sgn = 1;
    CHECK(pn > 0, "plane", "the plane has no normal: ", what);
    if (coeff(3) == 0 && (pl(0) * N[0] + pl(1) * N[1] + pl(2) * N[2]) < 0) sgn = -1;
    for (int k = 0; k < 3; ++k) {
      N[k] *= sgn;
      CHECK(fabsl(pl(k) / pn - N[k]) <= 1e-6, "plane", "the plane normal changed: ", what);
    }
    CHECK(fabsl(pl(3) / pn - D) <= 1e-6 * (unit + D), "plane", "the plane offset changed: ", what);
    long double R[3][3], t[3];
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) R[i][j] = T.matrix()(i, j);
      t[i] = T.matrix()(i, 3);
      CHECK(T.matrix()(3, i) == 0, "rigid", "last row: ", what);
    }
    CHECK(T.matrix()(3, 3) == 1, "rigid", "last row: ", what);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        long double s = 0;
        for (int k = 0; k < 3; ++k) s += R[i][k] * R[j][k];
        CHECK(fabsl(s - (i == j)) <= 1e-5, "rigid", "rows ", i, " and ", j, " have product ", (double)s, ": ", what);
      }
    long double det = R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0]) + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0]);
    CHECK(det > 0, "rigid", "the transformation is a reflection: ", what);
    for (int k = 0; k < 3; ++k) CHECK(fabsl(R[2][k] - N[k]) <= 1e-5, "axis", "axis Z component ", k, " is ", (double)R[2][k], ", the normal has ", (double)N[k], ": ", what);
    double tolP = 1e-5 * maxc;
    CHECK(fabsl(t[2]) <= tolP, "height", "heights along the normal are shifted by ", (double)t[2], ": ", what);
    if (inl > 0) {
      for (int i = 0; i < 2; ++i) {
        long double c = t[i];
        for (int k = 0; k < 3; ++k) c += R[i][k] * sum[k] / inl;
        CHECK(fabsl(c) <= tolP * 3 * (1 + np / 300), "centroid", "the centroid of the inliers is at coordinate ", (double)c, " along axis ", i, ": ", what);
      }
      count("clouds with inliers");
    } else {
      for (int i = 0; i < 3; ++i) CHECK(fabsl(t[i]) <= 1e-6, "centroid", "without inliers the origin moves: ", what);
      count("clouds without inliers");
    }
    op("transform");
    Cloud out;
    if (r.chance(0.5)) out.resize(3);
    al.transform(out);
    CHECK(out.width == copy.width && out.height == copy.height && out.is_dense == copy.is_dense && out.header.frame_id == copy.header.frame_id, "transform", "the transformed cloud has another layout (", out.width, "x", out.height, ", dense ", out.is_dense, "): ", what);
    CHECK(out.size() == copy.size(), "transform", out.size(), " points out of ", copy.size(), ": ", what);
    for (size_t i = 0; i < copy.size(); ++i) {
      CHECK(memcmp(&copy[i], &(*cloud)[i], sizeof(P)) == 0, "input", "the input cloud changed: ", what);
      float c[3] = {copy[i].x, copy[i].y, copy[i].z}, o[3] = {out[i].x, out[i].y, out[i].z};
      if (std::isnan(c[0])) {
        count("invalid points");
        continue;
      }
      long double h = N[0] * c[0] + N[1] * c[1] + N[2] * c[2];
      CHECK(fabsl(o[2] - h) <= 3 * tolP, "transform", "point ", i, " gets height ", o[2], " expected ", (double)h, ": ", what);
      for (int a = 0; a < 3; ++a) {
        long double w = t[a];
        for (int k = 0; k < 3; ++k) w += R[a][k] * c[k];
        CHECK(fabsl(o[a] - w) <= 3 * tolP, "transform", "point ", i, " coordinate ", a, " is ", o[a], " expected ", (double)w, ": ", what);
      }
      count("points transformed");
    }
    if (coeff(3) < 0) count("planes turned toward the origin");
    if (scale != 1.0) count("planes with normal of any length");
    if (np) sig(cat(idx, what));
    if (wantSample()) sample(what);
  }
}

const char* vmon_property() { return "C25"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 100000 : 6000; }

void vmon_case(uint64_t idx, Rng& r) {
  if (idx % 3 == 0) run<pcl::PointXYZI>(idx, r);
  else run<pcl::PointXYZ>(idx, r);
  require("clouds with inliers", 500);
  require("planes turned toward the origin", 200);
}
