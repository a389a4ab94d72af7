// KAZE: the nonlinear scale space is the solution of the diffusion scheme, keypoints are its extrema, descriptors describe.
#define SEQX_MAIN
#include "seqx.h"

#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <opencv2/core/core.hpp>
#include <opencv2/highgui/highgui.hpp>
#include <opencv2/imgproc/imgproc.hpp>

#define private public
#include <kaze/KAZE.h>
#undef private

using seqx::Ctx;
using libKAZE::KAZE;
namespace {
typedef cv::Mat_<float> M;
typedef cv::Mat_<double> D;
double tolerance(double a, double b, double rel = 1e-5, double abs = 1e-7) { return abs + rel * std::max(std::abs(a), std::abs(b)); }
bool close(double a, double b, double rel = 1e-5, double abs = 1e-7) { return std::abs(a - b) <= tolerance(a, b, rel, abs); }
// A matrix inside a larger one, whose frame must stay as it is.
struct Framed {
  M all, in;
  Framed(int rows, int cols, float v = 0) : all(rows + 4, cols + 6, 77.f), in(all(cv::Rect(3, 2, cols, rows))) { in = v; }
  bool intact() const {
    for (int y = 0; y < all.rows; ++y)
      for (int x = 0; x < all.cols; ++x)
        if ((y < 2 || x < 3 || y >= all.rows - 2 || x >= all.cols - 3) && all(y, x) != 77.f) return false;
    return true;
  }
};
double worst(const cv::Mat& a, const cv::Mat& b) {
  if (a.size() != b.size()) return 1e30;
  cv::Mat x, y;
  a.convertTo(x, CV_64F);
  b.convertTo(y, CV_64F);
  double w = 0;
  for (int i = 0; i < x.rows; ++i)
    for (int j = 0; j < x.cols; ++j) {
      const double d = std::abs(x.at<double>(i, j) - y.at<double>(i, j));
      if (!(d <= w)) w = d == d ? d : 1e30;
    }
  return w;
}

// ---- time steps of one FED cycle
std::vector<double> taus(int n, double scale, double tau_max) {
  std::vector<double> t;
  for (int k = 0; k < n; ++k) { const double h = std::cos(M_PI * (2 * k + 1) / (4 * n + 2)); t.push_back(scale * tau_max / 2 / (h * h)); }
  return t;
}
void fed(Ctx& c) {
  const int part = c.choose(4, "number of steps | time | prime | stability");
  if (part == 0) {
    const int n = c.choose(c.thorough ? 1201 : 301, "steps");
    const float tau_max = c.pick({.25f, .1f, 1.f}, "largest step"), scale = c.pick({1.f, .37f}, "scale");
    const bool reorder = c.flag("reorder");
    std::vector<float> tau(3, 5.f);
    const int got = fed_tau_internal(n, scale, tau_max, reorder, tau);
    c.check(got == n, "steps", "%d steps instead of %d", got, n);
    if (n == 0) return;
    c.check((int)tau.size() == n, "steps", "%zu steps instead of %d", tau.size(), n);
    const std::vector<double> want = taus(n, scale, tau_max);
    std::vector<float> sorted = tau;
    std::sort(sorted.begin(), sorted.end());
    double sum = 0;
    for (int k = 0; k < n; ++k) {
      c.check(close(sorted[k], want[k], 1e-3), "sizes", "step %d of %d is %g instead of %g", k, n, sorted[k], want[k]);
      sum += tau[k];
    }
    c.check(close(sum, scale * tau_max * (double(n) * n + n) / 3, 1e-3), "sum", "%d steps take %g in all instead of %g", n, sum, scale * tau_max * (double(n) * n + n) / 3);
    if (!reorder) c.check(sorted == tau, "ascending", "%d steps that are not ascending", n);
  } else if (part == 1) {
    const int M = c.pick({1, 2, 7}, "cycles"), i = c.choose(c.thorough ? 400 : 100, "time");
    const float tau_max = c.pick({.25f, .1f}, "largest step"), T = i * i * .013f;
    const bool reorder = c.flag("reorder"), cycle = c.flag("by cycle");
    std::vector<float> tau;
    const int n = cycle ? fed_tau_by_cycle_time(T / M, tau_max, reorder, tau) : fed_tau_by_process_time(T, M, tau_max, reorder, tau);
    c.check(n == (int)tau.size(), "steps", "%d steps announced, %zu given", n, tau.size());
    double sum = 0;
    for (float t : tau) { c.check(t > 0, "positive", "a step of %g", t); sum += t; }
    c.check(close(sum, T / M, 1e-3), "time", "steps of a cycle take %g instead of %g", sum, T / M);
    if (n > 1) c.check((double(n) * n - n) / 3 * tau_max < T / M * (1 + 1e-5), "fewest", "%d steps, though %d are enough for %g", n, n - 1, T / M);
    if (i > 0) c.check((double(n) * n + n) / 3 * tau_max > T / M * (1 - 1e-5), "stable", "%d steps are too few for %g", n, T / M);
  } else if (part == 2) {
    const int block = c.choose(22, "block of numbers");
    const int from = block < 20 ? block * 5000 - 100 : block == 20 ? 46337 * 46337 - 300 : INT_MAX - 300;
    for (int i = 0; i < (block < 20 ? 5000 : 300); ++i) {
      const int p = from + i;
      bool prime = p > 1;
      for (long d = 2; d * d <= p && prime; ++d) prime = p % d != 0;
      c.check(fed_is_prime_internal(p) == prime, "prime", "%d is %sprime", p, prime ? "" : "not ");
    }
  } else {
    // No wave grows over a cycle.
    const int n = c.range(2, c.thorough ? 150 : 60, "steps");
    std::vector<float> tau;
    fed_tau_internal(n, 1.f, .25f, true, tau);
    for (int i = 0; i <= 400; ++i) {
      const double lambda = 8. * i / 400;
      double p = 1;
      for (float t : tau) p *= 1 - t * lambda;
      c.check(std::abs(p) <= 1 + 1e-2, "stable", "after a cycle of %d steps a wave has grown to %g", n, std::abs(p));
    }
  }
}

// ---- one explicit step
D referenceStep(const D& L, const D& g, double step) {
  D out = L.clone();
  for (int y = 0; y < L.rows; ++y)
    for (int x = 0; x < L.cols; ++x)
      for (int d = 0; d < 2; ++d) {
        const int y2 = y + d, x2 = x + 1 - d;
        if (y2 >= L.rows || x2 >= L.cols) continue;
        const double flux = .5 * step * (g(y, x) + g(y2, x2)) * (L(y2, x2) - L(y, x));
        out(y, x) += flux;
        out(y2, x2) -= flux;
      }
  return out;
}
void step(Ctx& c) {
  const int rows = c.range(2, c.thorough ? 6 : 5, "rows"), cols = c.range(2, c.thorough ? 6 : 5, "columns"), at = c.choose(rows * cols + 1, "peak");
  for (int gi = 0; gi <= rows * cols; ++gi)
    for (float stepsize : {.25f, .6f}) {
      Framed L(rows, cols), g(rows, cols), s(rows, cols, 9.f);  // what is in s must not matter
      for (int y = 0; y < rows; ++y)
        for (int x = 0; x < cols; ++x) {
          L.in(y, x) = at == rows * cols ? std::sin(1 + 3 * y + 5 * x) : at == y * cols + x;
          g.in(y, x) = gi == rows * cols ? 1 + .5 * std::cos(2 + 7 * y + 3 * x) : gi == y * cols + x ? 1.f : .25f;
        }
      D before, gd;
      L.in.convertTo(before, CV_64F);
      g.in.convertTo(gd, CV_64F);
      nld_step_scalar(L.in, g.in, s.in, stepsize);
      const D want = referenceStep(before, gd, stepsize);
      const double off = worst(L.in, want);
      c.check(off < 1e-5, "diffusion", "%d x %d, peak %d, conductivity %d: off by %g", rows, cols, at, gi, off);
      c.check(close(cv::sum(L.in)[0], cv::sum(before)[0], 1e-5, 1e-5), "conserved", "%d x %d: the sum of the image changed from %g to %g", rows, cols, cv::sum(before)[0], cv::sum(L.in)[0]);
      c.check(worst(g.in, gd) == 0 && L.intact() && g.intact() && s.intact(), "elsewhere", "%d x %d: something else was written", rows, cols);
    }
}
double conductivity(int which, double x, double y, double k) {
  const double q = (x * x + y * y) / (k * k);
  switch (which) {
    case PM_G1: return std::exp(-q);
    case PM_G2: return 1 / (1 + q);
    case WEICKERT: return q == 0 ? 1 : 1 - std::exp(-3.315 / (q * q * q * q));
    default: return 1 / std::sqrt(1 + q);
  }
}
void conductivityOf(int which, const cv::Mat& Lx, const cv::Mat& Ly, cv::Mat& out, float k) {
  switch (which) {
    case PM_G1: pm_g1(Lx, Ly, out, k); break;
    case PM_G2: pm_g2(Lx, Ly, out, k); break;
    case WEICKERT: weickert_diffusivity(Lx, Ly, out, k); break;
    default: charbonnier_diffusivity(Lx, Ly, out, k);
  }
}
void conductivities(Ctx& c) {
  const int which = c.choose(4, "formula");
  const float k = c.pick({.001f, .03f, 1.f, 5.f}, "contrast");
  const std::vector<float> values{0.f, .0004f, -.01f, .03f, -.5f, 1.f, 3.f};
  const float a = c.pick(values, "Lx"), b = c.pick(values, "Ly");
  Framed Lx(2, 3), Ly(2, 3), g(2, 3, 5.f);
  for (int i = 0; i < 6; ++i) { Lx.in(i / 3, i % 3) = a * (1 + i % 4); Ly.in(i / 3, i % 3) = b * (1 + i % 3); }
  cv::Mat out = g.in;
  conductivityOf(which, Lx.in, Ly.in, out, k);
  for (int i = 0; i < 6; ++i) {
    const double want = conductivity(which, Lx.in(i / 3, i % 3), Ly.in(i / 3, i % 3), k), got = M(out)(i / 3, i % 3);
    c.check(close(got, want, 1e-4, 1e-6), "conductivity", "formula %d of (%g, %g) with %g is %g instead of %g", which, Lx.in(i / 3, i % 3), Ly.in(i / 3, i % 3), k, got, want);
    c.check(got >= 0 && got <= 1, "conductivity", "formula %d is %g", which, got);
  }
  c.check(Lx.intact() && Ly.intact() && g.intact(), "elsewhere", "something else was written");
}
void neighbourhood(Ctx& c) {
  const int rows = c.pick({1, 3}, "rows");
  const int cols = 3;
  Framed img(rows, cols);
  for (int i = 0; i < rows * cols; ++i) img.in(i / cols, i % cols) = c.choose(3, "pixel");
  for (int dsize = 0; dsize <= 2; ++dsize)
    for (int row = 0; row < rows; ++row)
      for (int col = 0; col < cols; ++col)
        for (float v : {0.f, 1.f, 2.f})
          for (bool same : {false, true}) {
            bool want = true;
            for (int i = 0; i < rows; ++i)
              for (int j = 0; j < cols; ++j)
                if (std::abs(i - row) <= dsize && std::abs(j - col) <= dsize && !(same && i == row && j == col) && img.in(i, j) > v) want = false;
            c.check(check_maximum_neighbourhood(img.in, dsize, v, row, col, same) == want, "maximum", "%g at (%d, %d) of a neighbourhood of %d is %sa maximum", v, row, col, dsize, want ? "" : "not ");
          }
}
// ---- derivatives
double referenceDerivative(const cv::Mat& src, int y, int x, bool along_x, int scale) {
  double sum = 0;
  const double w[3] = {3. / 16, 10. / 16, 3. / 16};
  for (int a = -1; a <= 1; ++a)
    for (int b = -1; b <= 1; b += 2) {
      const int yy = cv::borderInterpolate(y + scale * (along_x ? a : b), src.rows, cv::BORDER_REFLECT_101);
      const int xx = cv::borderInterpolate(x + scale * (along_x ? b : a), src.cols, cv::BORDER_REFLECT_101);
      sum += w[a + 1] * b * src.at<float>(yy, xx);
    }
  return sum / (2 * scale);
}
void derivatives(Ctx& c) {
  const int scale = c.range(1, c.thorough ? 16 : 6, "scale"), rows = c.pick({3, 6, 13}, "rows"), cols = c.pick({4, 9}, "columns");
  const bool along_x = c.flag("along x");
  const int at = c.choose(rows * cols + 2, "peak | ramps");
  Framed src(rows, cols);
  for (int y = 0; y < rows; ++y)
    for (int x = 0; x < cols; ++x) src.in(y, x) = at < rows * cols ? at == y * cols + x : at == rows * cols ? 2.f * x : 3.f * y - x;
  cv::Mat out;
  compute_scharr_derivatives(src.in, out, along_x, !along_x, scale);
  c.check(out.type() == CV_32F && out.size() == src.in.size(), "type", "another type or size");
  // Isolated images have the same derivatives as views of larger ones only in the interior; the rest is up to OpenCV.
  cv::Mat isolated = src.in.clone(), alone;
  compute_scharr_derivatives(isolated, alone, along_x, !along_x, scale);
  for (int y = 0; y < rows; ++y)
    for (int x = 0; x < cols; ++x) {
      const double want = referenceDerivative(isolated, y, x, along_x, scale);
      c.check(close(alone.at<float>(y, x), want, 1e-5, 1e-6), "derivative", "scale %d, (%d, %d) of %d x %d: %g instead of %g", scale, y, x, rows, cols, alone.at<float>(y, x), want);
    }
  if (at >= rows * cols && rows > 2 * scale && cols > 2 * scale) {
    const double slope = at == rows * cols ? (along_x ? 2 : 0) : (along_x ? -1 : 3);
    c.check(close(alone.at<float>(rows / 2, cols / 2), slope, 1e-5, 1e-5), "slope", "a slope of %g has the derivative %g at scale %d", slope, alone.at<float>(rows / 2, cols / 2), scale);
  }
}

// ---- pictures
float pixel(int picture, int y, int x, int rows, int cols) {
  const double u = x - cols / 2., v = y - rows / 2.;
  switch (picture) {
    case 0: return .4f;                                                         // flat
    case 1: return y == rows / 3 && x == cols / 4;                              // a point
    case 2: return x < cols / 2 ? .2f : .8f;                                    // an edge
    case 3: return .5 + .4 * std::sin(1.3 * x + .4 * y * y) * std::cos(.7 * y);  // busy
    case 4: return .1 + .8 * std::exp(-(u * u + v * v) / 18);                   // a blob
    case 5: return .9 - .8 * std::exp(-((u - 4) * (u - 4) + (v + 3) * (v + 3)) / 30) - .3 * std::exp(-((u + 8) * (u + 8) + v * v) / 8);
    default: return ((x / 5 + y / 5) % 2) ? .75f : .25f;                        // a chess board
  }
}
M picture(int which, int rows, int cols) {
  M m(rows, cols);
  for (int y = 0; y < rows; ++y)
    for (int x = 0; x < cols; ++x) m(y, x) = pixel(which, y, x, rows, cols);
  return m;
}
void contrast(Ctx& c) {
  const int which = c.choose(7, "picture"), rows = c.pick({9, 24}, "rows"), cols = c.pick({8, 31}, "columns");
  const float percentile = c.pick({.3f, .5f, .7f, .9f, 1.f}, "percentile"), sigma = c.pick({1.f, 2.f}, "sigma");
  const size_t bins = c.pick({1, 7, 300}, "bins");
  const M img = picture(which, rows, cols);
  const float k = compute_k_percentile(img, percentile, sigma, bins, 0, 0);
  cv::Mat smooth, Lx, Ly;
  int size = std::ceil(2 * (1 + (sigma - .8) / .3));
  size += size % 2 == 0;
  cv::GaussianBlur(img, smooth, cv::Size(size, size), sigma, sigma, cv::BORDER_REPLICATE);
  cv::Scharr(smooth, Lx, CV_32F, 1, 0);
  cv::Scharr(smooth, Ly, CV_32F, 0, 1);
  std::vector<double> g;
  for (int y = 1; y < rows - 1; ++y)
    for (int x = 1; x < cols - 1; ++x) {
      const double m = std::hypot(Lx.at<float>(y, x), Ly.at<float>(y, x));
      if (m != 0) g.push_back(m);
    }
  c.check(k > 0 && std::isfinite(k), "positive", "the contrast is %g", k);
  if (g.empty()) return;
  const double most = *std::max_element(g.begin(), g.end()), bin = most / bins;
  c.check(k <= most * (1 + 1e-5), "percentile", "the contrast %g is above the largest gradient %g", k, most);
  size_t below = 0, clearly = 0;
  for (double m : g) { below += m <= k * (1 + 1e-4); clearly += m < (k - bin) * (1 - 1e-4); }
  const size_t needed = percentile * g.size();
  c.check(below >= needed, "percentile", "%zu of %zu gradients are below the contrast %g, %zu are needed", below, g.size(), k, needed);
  c.check(clearly < std::max<size_t>(1, needed), "percentile", "%zu of %zu gradients are a bin below the contrast %g, %zu are needed", clearly, g.size(), k, needed);
}

// ---- scale space
KAZEOptions options(int rows, int cols, bool fed, int diffusivity, int octaves, int sublevels) {
  KAZEOptions o;
  o.img_width = cols;
  o.img_height = rows;
  o.use_fed = fed;
  o.diffusivity = (DIFFUSIVITY_TYPE)diffusivity;
  o.omax = octaves;
  o.nsublevels = sublevels;
  return o;
}
// (I - 2 tau A) x = d along the rows of L
D implicitRows(const D& L, const D& g, double tau) {
  D out(L.rows, L.cols);
  const int n = L.cols;
  for (int y = 0; y < L.rows; ++y) {
    cv::Mat A = cv::Mat::eye(n, n, CV_64F), b(n, 1, CV_64F), x;
    for (int i = 0; i < n; ++i) {
      b.at<double>(i) = L(y, i);
      for (int j : {i - 1, i + 1}) {
        if (j < 0 || j >= n) continue;
        const double w = tau * (g(y, i) + g(y, j));
        A.at<double>(i, i) += w;
        A.at<double>(i, j) -= w;
      }
    }
    cv::solve(A, b, x, cv::DECOMP_LU);
    for (int i = 0; i < n; ++i) out(y, i) = x.at<double>(i);
  }
  return out;
}
void scaleSpace(Ctx& c) {
  const bool use_fed = c.flag("FED");
  const int diffusivity = c.choose(4, "diffusivity"), which = c.choose(7, "picture");
  const cv::Size size = c.pick({cv::Size(12, 9), cv::Size(9, 12), cv::Size(10, 10), cv::Size(5, 17)}, "size");
  const int octaves = c.range(1, c.thorough ? 3 : 2, "octaves"), sublevels = c.range(1, c.thorough ? 4 : 3, "sublevels");
  const bool view = c.flag("view");
  KAZEOptions o = options(size.height, size.width, use_fed, diffusivity, octaves, sublevels);
  o.soffset = c.pick({1.6f, 1.f}, "first sigma");
  KAZE k(o);
  Framed whole(size.height, size.width);
  picture(which, size.height, size.width).copyTo(whole.in);
  const M img = view ? whole.in : M(whole.in.clone());
  const M before = img.clone();
  c.check(k.Create_Nonlinear_Scale_Space(img) == 0, "created", "the scale space was not created");
  c.check(worst(img, before) == 0 && whole.intact(), "unchanged", "the image was changed");
  c.check((int)k.evolution_.size() == octaves * sublevels, "levels", "%zu levels", k.evolution_.size());
  const double contrast = k.options_.kcontrast;
  c.check(close(contrast, compute_k_percentile(before, o.kcontrast_percentile, o.sderivatives, o.kcontrast_nbins, 0, 0), 1e-4), "contrast", "the contrast is %g", contrast);
  cv::Mat Lt;
  gaussian_2D_convolution(before, Lt, 0, 0, o.soffset);
  D want;
  Lt.convertTo(want, CV_64F);
  const double flat = cv::sum(want)[0], low = pixel(which, 0, 0, 1, 1);
  (void)low;
  double time = 0;
  for (size_t i = 0; i < k.evolution_.size(); ++i) {
    const TEvolution& e = k.evolution_[i];
    const int octave = i / sublevels, sublevel = i % sublevels;
    const double sigma = o.soffset * std::pow(2., octave + double(sublevel) / sublevels), etime = sigma * sigma / 2;
    c.check(close(e.esigma, sigma) && close(e.etime, etime) && e.octave == octave && e.sublevel == sublevel && e.sigma_size == (int)(sigma + .5f), "levels",
            "level %zu: sigma %g instead of %g, time %g, octave %d, sublevel %d, size %d", i, e.esigma, sigma, e.etime, e.octave, e.sublevel, e.sigma_size);
    if (i > 0) {
      M previous, smooth;
      want.convertTo(previous, CV_32F);
      gaussian_2D_convolution(previous, smooth, 0, 0, o.sderivatives);
      c.check(worst(e.Lsmooth, smooth) < 2e-4, "smooth", "the smoothed image of level %zu is off by %g", i, worst(e.Lsmooth, smooth));
      cv::Mat Lx, Ly;
      cv::Scharr(smooth, Lx, CV_32F, 1, 0);
      cv::Scharr(smooth, Ly, CV_32F, 0, 1);
      D g(size);
      for (int y = 0; y < g.rows; ++y)
        for (int x = 0; x < g.cols; ++x) g(y, x) = conductivity(diffusivity, Lx.at<float>(y, x), Ly.at<float>(y, x), contrast);
      const double t = etime - time;
      if (use_fed) {
        int n = 1;
        while ((double(n) * n + n) / 3 * .25 < t - 1e-6) ++n;
        for (double tau : taus(n, 3 * t / (.25 * n * (n + 1)), .25)) want = referenceStep(want, g, tau);
      } else {
        const D rows = implicitRows(want, g, t), columns = implicitRows(D(want.t()), D(g.t()), t);
        want = .5 * (rows + D(columns.t()));
      }
    } else {
      cv::Mat smooth;
      gaussian_2D_convolution(Lt, smooth, 0, 0, o.sderivatives);
      c.check(worst(e.Lsmooth, smooth) < 1e-5, "smooth", "the smoothed image of level 0 is off by %g", worst(e.Lsmooth, smooth));
    }
    time = etime;
    const double off = worst(e.Lt, want);
    c.check(off < 2e-4 * (i + 1), "diffusion", "level %zu of %s with diffusivity %d of picture %d, %d x %d, is off by %g", i, use_fed ? "FED" : "AOS", diffusivity, which, size.width, size.height, off);
    c.check(close(cv::sum(e.Lt)[0], flat, 1e-4, 1e-4), "conserved", "level %zu: the sum of the image is %g instead of %g", i, cv::sum(e.Lt)[0], flat);
    if (which == 0) c.check(worst(e.Lt, before) < 1e-4, "flat", "a flat image is off by %g at level %zu", worst(e.Lt, before), i);
  }
  // detector responses
  k.Compute_Detector_Response();
  for (size_t i = 0; i < k.evolution_.size(); ++i) {
    const TEvolution& e = k.evolution_[i];
    const int s = e.sigma_size;
    cv::Mat x, y, xx, xy, yy;
    compute_scharr_derivatives(e.Lsmooth, x, 1, 0, s);
    compute_scharr_derivatives(e.Lsmooth, y, 0, 1, s);
    compute_scharr_derivatives(x, xx, 1, 0, s);
    compute_scharr_derivatives(x, xy, 0, 1, s);
    compute_scharr_derivatives(y, yy, 0, 1, s);
    const cv::Mat det = (xx.mul(yy) - xy.mul(xy)) * (double(s) * s * s * s);
    c.check(worst(e.Lx, x * s) < 1e-4 && worst(e.Ly, y * s) < 1e-4, "derivatives", "first derivatives of level %zu are off by %g, %g", i, worst(e.Lx, x * s), worst(e.Ly, y * s));
    c.check(worst(e.Lxx, xx * s * s) < 1e-4 && worst(e.Lxy, xy * s * s) < 1e-4 && worst(e.Lyy, yy * s * s) < 1e-4, "derivatives", "second derivatives of level %zu are off by %g, %g, %g", i,
            worst(e.Lxx, xx * s * s), worst(e.Lxy, xy * s * s), worst(e.Lyy, yy * s * s));
    c.check(worst(e.Ldet, det) < 1e-4, "determinant", "the response of level %zu is off by %g", i, worst(e.Ldet, det));
  }
}
// Images that do not fit are refused.
void refused(Ctx& c) {
  KAZEOptions o = options(20, 24, c.flag("FED"), 1, 2, 2);
  KAZE k(o);
  const int type = c.pick({CV_32FC1, CV_8UC1, CV_64FC1, CV_32FC3}, "type");
  const int rows = c.pick({20, 19, 24, 0}, "rows"), cols = c.pick({24, 25, 20}, "columns");
  const bool fits = type == CV_32FC1 && rows == 20 && cols == 24;
  if (c.flag("after another")) c.check(k.Create_Nonlinear_Scale_Space(picture(4, 20, 24)) == 0, "created", "the scale space was not created");
  cv::Mat img(rows, cols, type, cv::Scalar::all(1));
  const int r = k.Create_Nonlinear_Scale_Space(img);
  c.check(r == (fits ? 0 : -1), "refused", "an image of %d x %d, type %d, returns %d", rows, cols, type, r);
  c.check(k.Create_Nonlinear_Scale_Space(picture(5, 20, 24)) == 0, "created", "the scale space was not created");
  KAZE fresh(o);
  fresh.Create_Nonlinear_Scale_Space(picture(5, 20, 24));
  for (size_t i = 0; i < k.evolution_.size(); ++i) c.check(worst(k.evolution_[i].Lt, fresh.evolution_[i].Lt) == 0, "again", "level %zu differs after an image that was refused", i);
}

// ---- extrema
struct Peak { int level, y, x; float height; };
bool sameKeypoint(const cv::KeyPoint& a, const cv::KeyPoint& b) {
  return a.pt == b.pt && a.size == b.size && a.angle == b.angle && a.response == b.response && a.octave == b.octave && a.class_id == b.class_id;
}
void extrema(Ctx& c) {
  const int rows = 8, cols = 9, octaves = 2, sublevels = 2;  // levels 1 and 2 are searched, 0 and 3 bound them
  KAZEOptions o = options(rows, cols, true, 1, octaves, sublevels);
  o.soffset = 1.f;
  o.dthreshold = .01f;
  static KAZE k(o);
  for (auto& e : k.evolution_) e.Ldet = cv::Scalar(0);
  std::vector<Peak> peaks;
  for (int i = 0; i < 2; ++i) {
    Peak p;
    p.level = i == 0 ? c.choose(4, "level") : c.choose(4, "level");
    p.y = i == 0 ? c.pick({0, 1, 3, 6, 7}, "y") : c.choose(rows, "y");
    p.x = i == 0 ? c.pick({0, 1, 4, 7, 8}, "x") : c.choose(cols, "x");
    p.height = c.pick({.009f, .5f, 2.f}, "height");
    peaks.push_back(p);
    float& v = k.evolution_[p.level].Ldet.at<float>(p.y, p.x);
    v = std::max(v, p.height);
  }
  std::vector<cv::KeyPoint> got(1, cv::KeyPoint(4, 4, 3));
  got.clear();
  k.Determinant_Hessian_Parallel(got);
  // all maxima
  std::vector<Peak> maxima;
  for (int l = 1; l < 3; ++l)
    for (int y = 1; y < rows - 1; ++y)
      for (int x = 1; x < cols - 1; ++x) {
        const float v = k.evolution_[l].Ldet.at<float>(y, x);
        bool is = v > o.dthreshold;
        for (int dl = -1; dl <= 1; ++dl)
          for (int dy = -1; dy <= 1; ++dy)
            for (int dx = -1; dx <= 1; ++dx) is = is && k.evolution_[l + dl].Ldet.at<float>(y + dy, x + dx) <= v;
        if (is) maxima.push_back({l, y, x, v});
      }
  for (const auto& p : got) {
    bool is = false;
    for (const Peak& m : maxima) is = is || (p.class_id == m.level && p.pt.x == m.x && p.pt.y == m.y && p.response == m.height);
    c.check(is, "maximum", "the keypoint (%g, %g) of level %d is not a maximum", p.pt.x, p.pt.y, p.class_id);
    c.check(p.octave == p.class_id / sublevels && p.angle == p.class_id % sublevels && p.size == k.evolution_[p.class_id].esigma, "level", "keypoint of level %d: octave %d, sublevel %g, size %g",
            p.class_id, p.octave, p.angle, p.size);
  }
  for (const Peak& m : maxima) {
    bool found = false, itself = false;
    for (const auto& p : got) {
      const double d2 = (p.pt.x - m.x) * (p.pt.x - m.x) + (p.pt.y - m.y) * (p.pt.y - m.y);
      const int s = std::max(k.evolution_[m.level].sigma_size, k.evolution_[p.class_id].sigma_size);
      found = found || (std::abs(p.class_id - m.level) <= 1 && p.response >= m.height && d2 < s * s);
      itself = itself || (p.class_id == m.level && p.pt.x == m.x && p.pt.y == m.y);
    }
    c.check(found, "found", "the maximum (%d, %d) of level %d is not found", m.x, m.y, m.level);
    bool lonely = true;
    for (const Peak& n : maxima) {
      if (n.level == m.level && n.y == m.y && n.x == m.x) continue;
      const int s = std::max(k.evolution_[m.level].sigma_size, k.evolution_[n.level].sigma_size);
      lonely = lonely && (n.x - m.x) * (n.x - m.x) + (n.y - m.y) * (n.y - m.y) >= s * s;
    }
    if (lonely) c.check(itself, "found", "the lonely maximum (%d, %d) of level %d is not found", m.x, m.y, m.level);
  }
  // of two that are close the weaker does not stay
  for (size_t i = 0; i < got.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      const double d2 = (got[i].pt.x - got[j].pt.x) * (got[i].pt.x - got[j].pt.x) + (got[i].pt.y - got[j].pt.y) * (got[i].pt.y - got[j].pt.y);
      const int s = std::min(k.evolution_[got[i].class_id].sigma_size, k.evolution_[got[j].class_id].sigma_size);
      c.check(d2 >= s * s || std::abs(got[i].class_id - got[j].class_id) > 1, "repeated", "two keypoints %g apart", std::sqrt(d2));
    }
}
// A peak in the shape of a paraboloid is located exactly; one that lies outside of its cell is dropped.
void subpixel(Ctx& c) {
  const int rows = 9, cols = 10, sublevels = 4;
  const std::vector<double> offsets = c.thorough ? std::vector<double>{-1.4, -.9, -.5, -.3, 0, .25, .5, .8, 1.4} : std::vector<double>{-1.4, -.5, 0, .25, .8};
  const int level = c.range(1, 6, "level"), count = c.range(1, 2, "keypoints");
  static std::unique_ptr<KAZE> k;
  KAZEOptions o = options(rows, cols, true, 1, 2, sublevels);
  if (!k) k.reset(new KAZE(o));
  for (auto& e : k->evolution_) e.Ldet = cv::Scalar(0);
  const double dx = c.pick(offsets, "x"), dy = c.pick(offsets, "y"), ds = c.pick(offsets, "s"), cross = c.pick({0., .3, -.2}, "cross");
  std::vector<cv::KeyPoint> kpts;
  for (int i = 0; i < count; ++i) {
    const int x0 = 2 + 5 * i, y0 = 3 + 2 * i;
    for (int l = -1; l <= 1; ++l)
      for (int y = -1; y <= 1; ++y)
        for (int x = -1; x <= 1; ++x) {
          const double a = x - (i == 0 ? dx : .125), b = y - (i == 0 ? dy : -.25), s = l - (i == 0 ? ds : .375);
          k->evolution_[level + l].Ldet.at<float>(y0 + y, x0 + x) = 8 - a * a - 2 * b * b - 1.5 * s * s - (i == 0 ? cross : 0) * (a * b + 2 * b * s - a * s);
        }
    cv::KeyPoint p(x0, y0, k->evolution_[level].esigma, level % sublevels, 3.f + i, level / sublevels, level);
    kpts.push_back(p);
  }
  k->Do_Subpixel_Refinement(kpts);
  const bool stays = std::abs(dx) <= 1 && std::abs(dy) <= 1 && std::abs(ds) <= 1;
  c.check(kpts.size() == count - 1u + stays, "kept", "%zu of %d keypoints are left, offset (%g, %g, %g)", kpts.size(), count, dx, dy, ds);
  for (size_t n = 0; n < kpts.size(); ++n) {
    const int i = n + !stays;
    const double x = i == 0 ? 2 + dx : 7.125, y = i == 0 ? 3 + dy : 4.75, s = i == 0 ? ds : .375;
    const double size = 2 * o.soffset * std::pow(2., level / sublevels + (level % sublevels + s) / sublevels);
    const cv::KeyPoint& p = kpts[n];
    c.check(close(p.pt.x, x, 1e-4, 1e-4) && close(p.pt.y, y, 1e-4, 1e-4), "place", "the keypoint is at (%g, %g) instead of (%g, %g)", p.pt.x, p.pt.y, x, y);
    c.check(close(p.size, size, 1e-4), "size", "the keypoint of level %d has the size %g instead of %g", level, p.size, size);
    c.check(p.response == 3.f + i && p.octave == level / sublevels && p.class_id == level && p.angle == 0, "rest", "response %g, octave %d, level %d, angle %g", p.response, p.octave, p.class_id, p.angle);
  }
}
// A keypoint whose place cannot be refined does not take over the offset of another.
void singular(Ctx& c) {
  const int rows = 9, cols = 12;
  KAZEOptions o = options(rows, cols, true, 1, 1, 4);
  KAZE k(o);
  for (auto& e : k.evolution_) e.Ldet = cv::Scalar(0);
  const int flat = c.choose(3, "which derivative is flat"), first = c.flag("another first");
  std::vector<cv::KeyPoint> kpts;
  auto put = [&](int x0, int y0, bool degenerate) {
    for (int l = -1; l <= 1; ++l)
      for (int y = -1; y <= 1; ++y)
        for (int x = -1; x <= 1; ++x) {
          const double a = degenerate && flat == 0 ? 0 : x - .25 * !degenerate, b = degenerate && flat == 1 ? 0 : y + .25 * !degenerate, s = degenerate && flat == 2 ? 0 : l - .25 * !degenerate;
          k.evolution_[1 + l].Ldet.at<float>(y0 + y, x0 + x) = 8 - a * a - b * b - s * s;
        }
    kpts.push_back(cv::KeyPoint(x0, y0, 3, 1, 5, 0, 1));
  };
  if (first) put(3, 4, false);
  put(8, 4, true);
  k.Do_Subpixel_Refinement(kpts);
  // Where the response is level the place is not determined: either the keypoint is dropped or it stays where it was.
  for (const auto& p : kpts)
    if (p.pt.x > 6) c.check(close(p.pt.x, 8) && close(p.pt.y, 4), "own offset", "a keypoint at (8, 4) without offset moved to (%g, %g)", p.pt.x, p.pt.y);
}

// ---- descriptors
const int kRows = 61, kCols = 61;
typedef std::function<void(double, double, double*)> Field;  // Lx, Ly, Lxx, Lxy, Lyy
void setFields(KAZE* k, int level, const Field& f) {
  TEvolution& e = k->evolution_[level];
  for (int y = 0; y < kRows; ++y)
    for (int x = 0; x < kCols; ++x) {
      double v[5];
      f(x - kCols / 2, y - kRows / 2, v);
      e.Lx.at<float>(y, x) = v[0];
      e.Ly.at<float>(y, x) = v[1];
      e.Lxx.at<float>(y, x) = v[2];
      e.Lxy.at<float>(y, x) = v[3];
      e.Lyy.at<float>(y, x) = v[4];
    }
}
void someField(int which, double x, double y, double* v) {
  switch (which) {
    case 0:
      v[0] = std::sin(.3 * x + .1 * y) + .2; v[1] = std::cos(.2 * y - .15 * x + 1);
      v[2] = std::sin(.2 * x) + .3; v[3] = .5 * std::cos(.1 * x + .3 * y); v[4] = std::sin(.25 * y + 2);
      return;
    case 1:
      v[0] = x > 0 ? 1 : -.5; v[1] = y > x ? .7 : -.3;
      v[2] = y > 2 ? 1 : -1; v[3] = x > 4 ? .6 : -.2; v[4] = x + y > -3 ? .9 : -.1;
      return;
    default:
      v[0] = .01 * x * y + .503; v[1] = .02 * x - .03 * y + .113;
      v[2] = .05 * y - .3; v[3] = .04 * x + .2; v[4] = .01 * y * x + .1;
  }
}
// The field turned by 90 degrees about the middle: (x, y) -> (-y, x).
void turnedField(int which, double x, double y, double* v) {
  double u[5];
  someField(which, y, -x, u);
  v[0] = -u[1];
  v[1] = u[0];
  v[2] = u[4];
  v[3] = -u[3];
  v[4] = u[2];
}
bool extended(int type) { return type % 4 >= 2; }
bool upright(int type) { return type % 2 == 0; }
std::vector<float> describe(KAZE* k, int type, const cv::KeyPoint& p) {
  std::vector<float> d(extended(type) ? 128 : 64, 1e9f);
  switch (type) {
    case SURF_UPRIGHT: k->Get_SURF_Upright_Descriptor_64(p, d.data()); break;
    case SURF: k->Get_SURF_Descriptor_64(p, d.data()); break;
    case SURF_EXTENDED_UPRIGHT: k->Get_SURF_Upright_Descriptor_128(p, d.data()); break;
    case SURF_EXTENDED: k->Get_SURF_Descriptor_128(p, d.data()); break;
    case MSURF_UPRIGHT: k->Get_MSURF_Upright_Descriptor_64(p, d.data()); break;
    case MSURF: k->Get_MSURF_Descriptor_64(p, d.data()); break;
    case MSURF_EXTENDED_UPRIGHT: k->Get_MSURF_Upright_Descriptor_128(p, d.data()); break;
    case MSURF_EXTENDED: k->Get_MSURF_Descriptor_128(p, d.data()); break;
    case GSURF_UPRIGHT: k->Get_GSURF_Upright_Descriptor_64(p, d.data()); break;
    case GSURF: k->Get_GSURF_Descriptor_64(p, d.data()); break;
    case GSURF_EXTENDED_UPRIGHT: k->Get_GSURF_Upright_Descriptor_128(p, d.data()); break;
    default: k->Get_GSURF_Descriptor_128(p, d.data());
  }
  return d;
}
double off(const std::vector<float>& a, const std::vector<float>& b) {
  double w = a.size() == b.size() ? 0 : 1e30;
  for (size_t i = 0; i < a.size() && w < 1e30; ++i) { const double d = std::abs(a[i] - b[i]); if (!(d <= w)) w = d == d ? d : 1e30; }
  return w;
}
double norm(const std::vector<float>& a) { double s = 0; for (float v : a) s += double(v) * v; return std::sqrt(s); }
std::unique_ptr<KAZE> describer(int type) {
  KAZEOptions o = options(kRows, kCols, true, 1, 1, 2);
  o.descriptor = (DESCRIPTOR_TYPE)type;
  return std::unique_ptr<KAZE>(new KAZE(o));
}
// Sum of the two halves of an extended descriptor, in the order of the 64 values.
std::vector<float> folded(const std::vector<float>& d, bool swapped) {
  std::vector<float> f;
  for (int i = 0; i < 16; ++i) {
    const float* p = &d[8 * i];
    const float a[4] = {p[0] + p[1], p[4] + p[5], p[2] + p[3], p[6] + p[7]};
    if (swapped) f.insert(f.end(), {a[1], a[0], a[3], a[2]});
    else f.insert(f.end(), {a[0], a[1], a[2], a[3]});
  }
  const double n = norm(f);
  for (float& v : f) v /= n;
  return f;
}
// 4 x 4 cells transposed.
std::vector<float> transposed(const std::vector<float>& d) {
  const int per = d.size() / 16;
  std::vector<float> t;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) t.insert(t.end(), d.begin() + (4 * j + i) * per, d.begin() + (4 * j + i + 1) * per);
  return t;
}
void descriptor(Ctx& c) {
  const int type = c.choose(12, "descriptor"), which = c.choose(3, "field"), scale = c.range(1, c.thorough ? 3 : 2, "scale");
  const double x = c.pick({30., 30.25, 27.5, 3.}, "x"), y = c.pick({30., 29.75, 58.}, "y");
  const std::vector<int> angles{0, 1, 2, 3, 4, 5, 6, 7};
  const double angle = c.pick(angles, "angle") * M_PI / 4 + (which == 1 ? .1 : 0);
  const bool inside = std::abs(x - 30) < 3 && std::abs(y - 30) < 3 && scale <= 1;
  std::unique_ptr<KAZE> k = describer(type);
  setFields(k.get(), 0, [](double, double, double* v) { std::fill(v, v + 5, 3e8); });  // another level, not to be used
  setFields(k.get(), 1, [which](double x, double y, double* v) { someField(which, x, y, v); });
  cv::KeyPoint p(x, y, 2 * scale, angle, 1, 0, 1);
  const std::vector<float> d = describe(k.get(), type, p);
  c.check(std::abs(norm(d) - 1) < 1e-4, "unit", "descriptor %d has the length %g", type, norm(d));
  const int per = d.size() / 16;
  for (int i = 0; i < 16; ++i)
    for (int h = 0; h < per / 4; ++h) {
      // sums and sums of absolute values
      const float* q = &d[per * i];
      for (int j = 0; j < 2; ++j) {
        const float sum = per == 4 ? q[j] : q[4 * h + j], absolute = per == 4 ? q[2 + j] : q[4 * h + 2 + j];
        c.check(absolute >= 0 && std::abs(sum) <= absolute + 1e-5, "absolute", "descriptor %d, cell %d: sum %g of absolute values %g", type, i, sum, absolute);
      }
    }
  if (upright(type)) {
    cv::KeyPoint q = p;
    q.angle = .7;
    c.check(off(d, describe(k.get(), type, q)) == 0, "upright", "descriptor %d depends on the angle", type);
  }
  // What belongs to the keypoint but is not where it is does not matter.
  cv::KeyPoint other = p;
  other.response = 7;
  other.octave = 3;
  c.check(off(d, describe(k.get(), type, other)) == 0, "depends", "descriptor %d depends on the response or octave", type);
  // 64 values are the sums of the 128
  if (!extended(type)) {
    const std::vector<float> e = describe(k.get(), type + 2, p);
    std::vector<float> f = folded(e, type >= GSURF_UPRIGHT);
    if (type == GSURF_UPRIGHT) f = transposed(f);
    c.check(off(d, f) < 2e-4, "extended", "descriptors %d and %d differ by %g", type, type + 2, off(d, f));
  }
  // half the contrast
  k->evolution_[1].Lx *= .5;
  k->evolution_[1].Ly *= .5;
  k->evolution_[1].Lxx *= .5;
  k->evolution_[1].Lxy *= .5;
  k->evolution_[1].Lyy *= .5;
  c.check(off(d, describe(k.get(), type, p)) < 1e-5, "contrast", "descriptor %d depends on the contrast, %g", type, off(d, describe(k.get(), type, p)));
  if (upright(type)) {
    // at no angle the other kind does the same, in another order
    setFields(k.get(), 1, [which](double x, double y, double* v) { someField(which, x, y, v); });
    p.angle = 0;
    const bool gauge = type >= GSURF_UPRIGHT;
    std::vector<float> r = describe(k.get(), type + 1, p);
    // dx and dy change places, except for the gauge derivatives
    if (!gauge)
      for (size_t i = 0; i < r.size(); i += per) {
        if (per == 4) { std::swap(r[i], r[i + 1]); std::swap(r[i + 2], r[i + 3]); }
        else for (int j = 0; j < 4; ++j) std::swap(r[i + j], r[i + 4 + j]);
      }
    if (type != GSURF_UPRIGHT) r = transposed(r);
    const bool integer = x == std::floor(x) && y == std::floor(y);
    // between pixels the two kinds may interpolate differently
    if (integer || which == 2) c.check(off(d, r) < (integer ? 1e-4 : 2e-2), "upright", "descriptors %d and %d at no angle differ by %g", type, type + 1, off(d, r));
  } else if (x == 30 && y == 30) {
    // turning image and keypoint by 90 degrees changes nothing
    (void)inside;
    if (scale > 1) return;  // within the image only
    const int turns = c.range(1, 1, "turns");
    (void)turns;
    const double a = std::round(angle / (M_PI / 2)) * M_PI / 2;
    p.angle = a;
    setFields(k.get(), 1, [which](double x, double y, double* v) { someField(which, x, y, v); });
    const std::vector<float> u = describe(k.get(), type, p);
    setFields(k.get(), 1, [which](double x, double y, double* v) { turnedField(which, x, y, v); });
    p.angle = a + M_PI / 2;
    const std::vector<float> t = describe(k.get(), type, p);
    c.check(off(u, t) < 5e-3, "turned", "descriptor %d changes by %g with the image turned by 90 degrees", type, off(u, t));
  }
}
// The main orientation is the direction of the gradients, wherever it points.
void orientation(Ctx& c) {
  const int degrees = c.choose(c.thorough ? 360 : 72, "direction") * (c.thorough ? 1 : 5), scale = c.range(1, 3, "scale");
  const double x = c.pick({30., 27.4, 2.}, "x"), y = c.pick({30., 57.}, "y");
  const bool noise = c.flag("others");
  std::unique_ptr<KAZE> k = describer(SURF);
  const double a = degrees * M_PI / 180;
  setFields(k.get(), 0, [](double, double, double* v) { std::fill(v, v + 5, 3e8); });
  setFields(k.get(), 1, [&](double u, double w, double* v) {
    v[0] = std::cos(a);
    v[1] = std::sin(a);
    if (std::hypot(u + 30 - x, w + 30 - y) > 6 * scale + 1) { v[0] = 50 * std::sin(a + 1); v[1] = 50 * std::cos(a + 1); }  // too far to matter
    else if (noise && std::fmod(std::abs(u + 2 * w), 5) == 0) { v[0] = .4 * std::cos(a + 2); v[1] = .4 * std::sin(a + 2); }
  });
  cv::KeyPoint p(x, y, 2 * scale, 0, 5, 1, 1);
  k->Compute_Main_Orientation(p);
  double d = std::fmod(p.angle - a + 4 * M_PI, 2 * M_PI);
  d = std::min(d, 2 * M_PI - d);
  c.check(d < .02, "orientation", "the orientation is %g instead of %g", p.angle, a);
  c.check(p.pt.x == (float)x && p.pt.y == (float)y && p.size == 2 * scale && p.class_id == 1 && p.octave == 1 && p.response == 5, "rest", "the keypoint changed");
  // an empty neighbourhood has no direction
}
// ---- objects used again
struct Result { std::vector<cv::KeyPoint> kpts; cv::Mat desc; };
void useFor(Ctx& c, KAZE* k, int which, int rows, int cols, Result* r) {
  M img = picture(which, rows, cols);
  const M before = img.clone();
  c.check(k->Create_Nonlinear_Scale_Space(img) == 0, "created", "the scale space was not created");
  img = 9.f;  // the image is not needed any more
  k->Feature_Detection(r->kpts);
  std::vector<cv::KeyPoint> found = r->kpts;
  k->Compute_Descriptors(r->kpts, r->desc);
  const int width = extended(k->options_.descriptor) ? 128 : 64;
  c.check(r->kpts.size() == found.size() && r->desc.rows == (int)found.size() && (r->desc.cols == width || found.empty()) && r->desc.type() == CV_32FC1, "descriptors", "%d x %d descriptors for %zu keypoints", r->desc.rows, r->desc.cols, found.size());
  for (size_t i = 0; i < found.size(); ++i) {
    cv::KeyPoint p = r->kpts[i];
    c.check(upright(k->options_.descriptor) ? p.angle == found[i].angle : p.angle >= 0 && p.angle < 6.2832, "angle", "the angle is %g", p.angle);
    const std::vector<float> d = describe(k, k->options_.descriptor, p), row(r->desc.ptr<float>(i), r->desc.ptr<float>(i) + width);
    c.check(off(d, row) == 0, "row", "descriptor %zu is not that of its keypoint", i);
    if (!upright(k->options_.descriptor)) {
      cv::KeyPoint q = found[i];
      k->Compute_Main_Orientation(q);
      c.check(q.angle == p.angle, "angle", "the angle is %g instead of %g", p.angle, q.angle);
    }
    p.angle = found[i].angle;
    c.check(sameKeypoint(p, found[i]), "rest", "keypoint %zu changed", i);
    c.check(p.pt.x > 0 && p.pt.y > 0 && p.pt.x < cols - 1 && p.pt.y < rows - 1 && p.response > k->options_.dthreshold && p.class_id >= 1 && p.class_id < (int)k->evolution_.size() - 1, "in the image",
            "keypoint at (%g, %g), level %d, response %g", p.pt.x, p.pt.y, p.class_id, p.response);
    // near a maximum
    const cv::Mat& det = k->evolution_[p.class_id].Ldet;
    bool near = false;
    for (int y = std::max(1., std::floor((double)p.pt.y - 1)); y <= std::min(rows - 2., std::ceil((double)p.pt.y + 1)); ++y)
      for (int x = std::max(1., std::floor((double)p.pt.x - 1)); x <= std::min(cols - 2., std::ceil((double)p.pt.x + 1)); ++x)
        near = near || (det.at<float>(y, x) == p.response && std::abs(x - p.pt.x) <= 1 && std::abs(y - p.pt.y) <= 1);
    c.check(near, "near", "keypoint at (%g, %g) is not within a pixel of its response", p.pt.x, p.pt.y);
  }
}
void again(Ctx& c) {
  const bool fed = c.flag("FED");
  const int diffusivity = c.pick({1, 2}, "diffusivity");
  const int type = c.thorough ? c.choose(12, "descriptor") : c.pick({0, 3, 5, 6, 9, 10}, "descriptor");
  const cv::Size size = c.pick({cv::Size(40, 32), cv::Size(32, 40)}, "size");
  const bool keep = c.flag("keep the results");
  KAZEOptions o = options(size.height, size.width, fed, diffusivity, 2, 3);
  o.descriptor = (DESCRIPTOR_TYPE)type;
  std::unique_ptr<KAZE> k(new KAZE(o));
  o.img_width = 1;  // the object has its own
  Result r;
  const int steps = c.thorough ? 3 : 2;
  for (int i = 0; i < steps; ++i) {
    const int which = c.choose(7, "picture");
    if (!keep) r = Result();
    if (i + 1 < steps && c.replaying()) {
      // the state has to be built all the same
    }
    useFor(c, k.get(), which, size.height, size.width, &r);
    KAZEOptions o2 = options(size.height, size.width, fed, diffusivity, 2, 3);
    o2.descriptor = (DESCRIPTOR_TYPE)type;
    KAZE fresh(o2);
    Result f;
    useFor(c, &fresh, which, size.height, size.width, &f);
    c.check(r.kpts.size() == f.kpts.size(), "again", "%zu keypoints instead of %zu with a new object", r.kpts.size(), f.kpts.size());
    for (size_t j = 0; j < f.kpts.size(); ++j) c.check(sameKeypoint(r.kpts[j], f.kpts[j]), "again", "keypoint %zu differs from that of a new object", j);
    c.check(r.desc.rows == f.desc.rows && worst(r.desc, f.desc) == 0, "again", "the descriptors differ from those of a new object");
    if (which == 0) c.check(r.kpts.empty(), "flat", "%zu keypoints in a flat image", r.kpts.size());
    if (which == 4) {
      bool found = false;
      for (const auto& p : r.kpts) found = found || std::hypot(p.pt.x - size.width / 2., p.pt.y - size.height / 2.) < 1.5;
      c.check(found, "blob", "the blob is not found");
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  cv::setNumThreads(1);
  std::vector<seqx::Scenario> v;
  v.push_back({"fed", "time steps of a cycle", fed, 4});
  v.push_back({"step", "one explicit step, every peak and every conductivity", step, 4});
  v.push_back({"conductivities", "the four formulas", conductivities, 1});
  v.push_back({"neighbourhood", "maxima of all images of 3 x 3 pixels with 3 levels", neighbourhood, 2});
  v.push_back({"derivatives", "derivatives of every peak at every scale", derivatives, 4});
  v.push_back({"contrast", "the contrast as a percentile of the gradients", contrast, 1});
  v.push_back({"scale space", "levels, responses, explicit and implicit scheme", scaleSpace, 2});
  v.push_back({"refused", "images that do not fit", refused, 1});
  v.push_back({"extrema", "every pair of peaks", extrema, 4});
  v.push_back({"subpixel", "every offset of a peak", subpixel, 6});
  v.push_back({"singular", "peaks without a curvature", singular, 1});
  v.push_back({"descriptor", "relations between the descriptors of every kind", descriptor, 12});
  v.push_back({"orientation", "every direction", orientation, 8});
  v.push_back({"again", "every sequence of pictures through one object", again, 2});
  return seqx::run_main(argc, argv, "S28", v);
}
