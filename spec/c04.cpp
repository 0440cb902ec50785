#include "core/angular_quadrature.hpp"
#include "core/geometry/angle.hpp"
#include "core/constants.hpp"
#include "util/fp_utils.hpp"
#include "util/h5file.hpp"
#include <algorithm>
#include "util/string_utils.hpp"
#include "common.hpp"

std::vector<std::pair<real_t, real_t>> GenGauss(int n_polar);
std::vector<std::pair<real_t, real_t>> GenYamamoto(int n_polar);
std::vector<Angle> GenProduct(const std::vector<std::pair<real_t, real_t>> &azi,
                              const std::vector<std::pair<real_t, real_t>> &pol);
std::vector<std::pair<real_t, real_t>> GenChebyshev(int n_azimuthal);
std::vector<Angle> GenSn(int order);
namespace mocc {
std::vector<Angle> GenUserQuadrature(const pugi::xml_node &input);
}

namespace ref {
void Direction__angles(Direction &self, real_t alpha, real_t theta)
{
    self.alpha     = alpha;
    self.theta     = theta;
    self.ox        = std::sin(theta) * std::cos(alpha);
    self.oy        = std::sin(theta) * std::sin(alpha);
    self.oz        = std::cos(theta);
    self.rsintheta = 1.0 / std::sin(theta);
}

void Direction__cosines(Direction &self, real_t ox, real_t oy, real_t oz)
{
    self.ox        = ox;
    self.oy        = oy;
    self.oz        = oz;
    self.theta     = std::acos(oz);
    real_t alpha   = std::acos(ox / std::sin(std::acos(oz)));
    self.alpha     = oy < 0.0 ? TWOPI - alpha : alpha;
    self.rsintheta = 1.0 / std::sin(std::acos(oz));
}

void Direction__modify_alpha(Direction &self, real_t new_alpha)
{
    self = Direction(new_alpha, self.theta);
}

void Direction__reflect(Direction &self, Surface surf)
{
    real_t ox = self.ox, oy = self.oy, oz = self.oz;
    switch (surf) {
    case Surface::EAST:
    case Surface::WEST:
        self = Direction(-ox, oy, oz);
        break;
    case Surface::NORTH:
    case Surface::SOUTH:
        self = Direction(ox, -oy, oz);
        break;
    case Surface::TOP:
    case Surface::BOTTOM:
        self = Direction(ox, oy, -oz);
        break;
    default:
        break;
    }
}

bool Direction__ne(const Direction &self, const Direction &other)
{
    return !fp_equiv_ulp(self.ox, other.ox) || !fp_equiv_ulp(self.oy, other.oy) ||
           !fp_equiv_ulp(self.oz, other.oz) || !fp_equiv_ulp(self.alpha, other.alpha) ||
           !fp_equiv_ulp(self.theta, other.theta) || !fp_equiv_ulp(self.rsintheta, other.rsintheta);
}

Angle Angle__to_octant(const Angle &self, int octant)
{
    return Angle(((const Direction &)self).to_octant(octant), self.weight);
}

void AngularQuadrature__modify_angle(AngularQuadrature &self, int iang, Angle ang)
{
    self.angles_[iang] = ang;
    for (int o = 2; o < 9; o++) {
        self.angles_[iang + (o - 1) * self.ndir_oct_] = ang.to_octant(o);
    }
}

std::vector<std::pair<real_t, real_t>> GenChebyshev(int n)
{
    std::vector<std::pair<real_t, real_t>> out;
    for (int i = 0; i < n; i++) {
        out.emplace_back((i + 0.5) * HPI / n, 1.0 / n);
    }
    return out;
}

std::vector<Angle> GenProduct(const std::vector<std::pair<real_t, real_t>> &azi,
                              const std::vector<std::pair<real_t, real_t>> &pol)
{
    std::vector<Angle> angles;
    int na = azi.size();
    int np = pol.size();
    real_t sum = 0.0;
    for (int i = 0; i < na; i++) {
        for (int j = 0; j < np; j++) {
            angles.push_back(Angle(azi[i].first, pol[j].first, azi[i].second * pol[j].second));
            sum += azi[i].second * pol[j].second;
        }
    }
    for (auto &a : angles) {
        a.weight /= sum;
    }
    return angles;
}

AngularQuadrature &AngularQuadrature__assign(AngularQuadrature &self, const AngularQuadrature &other)
{
    if (&self == &other) {
        return self;
    }
    if (self.n_polar_ != other.n_polar_ || self.n_azimuthal_ != other.n_azimuthal_) {
        throw EXCEPT("incompatible");
    }
    self.type_        = other.type_;
    self.ndir_oct_    = other.ndir_oct_;
    self.angles_      = other.angles_;
    self.n_polar_     = other.n_polar_;
    self.n_azimuthal_ = other.n_azimuthal_;
    return self;
}

Direction Direction__to_octant(const Direction &self, int octant)
{
    real_t x = std::abs(self.ox), y = std::abs(self.oy), z = std::abs(self.oz);
    if (octant == 1)
        return Direction(x, y, z);
    if (octant == 2)
        return Direction(-x, y, z);
    if (octant == 3)
        return Direction(-x, -y, z);
    if (octant == 4)
        return Direction(x, -y, z);
    if (octant == 5)
        return Direction(x, y, -z);
    if (octant == 6)
        return Direction(-x, y, -z);
    if (octant == 7)
        return Direction(-x, -y, -z);
    if (octant == 8)
        return Direction(x, -y, -z);
    return Direction(0.0, 0.0, 0.0);
}

void Angle__angles(Angle &self, real_t alpha, real_t theta, real_t weight)
{
    Direction__angles(self, alpha, theta);
    self.weight = weight;
}

void Angle__cosines(Angle &self, real_t ox, real_t oy, real_t oz, real_t weight)
{
    Direction__cosines(self, ox, oy, oz);
    self.weight = weight;
}

void Angle__xml(Angle &self, const pugi::xml_node &input)
{
    real_t weight = input.attribute("weight").as_double(0.0);
    bool has_cos  = !input.attribute("ox").empty();
    bool has_oy   = !input.attribute("oy").empty();
    bool has_oz   = !input.attribute("oz").empty();
    bool has_a    = !input.attribute("alpha").empty();
    bool has_t    = !input.attribute("theta").empty();
    if (weight <= 0.0) {
        throw EXCEPT("weight");
    }
    if (has_cos) {
        real_t ox = input.attribute("ox").as_double(2.0);
        real_t oy = input.attribute("oy").as_double(2.0);
        real_t oz = input.attribute("oz").as_double(2.0);
        if (has_a || has_t) {
            throw EXCEPT("over-defined");
        }
        if (ox <= -1.0 || ox >= 1.0 || ox == 0.0 || oy <= -1.0 || oy >= 1.0 || oy == 0.0 || oz <= -1.0 || oz >= 1.0 || oz == 0.0) {
            throw EXCEPT("range");
        }
        if (!fp_equiv_ulp(std::sqrt(ox * ox + oy * oy + oz * oz), 1.0)) {
            throw EXCEPT("unit sphere");
        }
        self = Angle(ox, oy, oz, weight);
    } else if (has_a) {
        if (has_oy || has_oz) {
            throw EXCEPT("over-defined");
        }
        real_t theta = input.attribute("theta").as_double();
        real_t alpha = input.attribute("alpha").as_double();
        if (theta <= -HPI || theta >= HPI || theta == 0.0) {
            throw EXCEPT("polar");
        }
        if (alpha < 0.0 || alpha >= TWOPI || alpha == 0.0 || alpha == HPI || alpha == PI || alpha == 3.0 * HPI) {
            throw EXCEPT("azimuthal");
        }
        self = Angle(alpha, theta, weight);
    } else {
        throw EXCEPT("no direction");
    }
}

bool Angle__eq(const Angle &self, const Angle &other)
{
    return !(((const Direction &)self) != ((const Direction &)other)) && fp_equiv_ulp(self.weight, other.weight);
}

std::vector<Angle> GenUserQuadrature(const pugi::xml_node &input)
{
    std::vector<Angle> angles;
    for (auto node = input.child("angle"); node; node = node.next_sibling("angle")) {
        angles.push_back(Angle(node));
    }
    real_t w = 0.0;
    for (const auto &a : angles) {
        w += a.weight;
        if (a.ox < 0.0 || a.oy < 0.0 || a.oz < 0.0) {
            throw EXCEPT("octant");
        }
    }
    if (!fp_equiv_ulp(w, 1.0)) {
        throw EXCEPT("sum");
    }
    return angles;
}

void AngularQuadrature__h5(AngularQuadrature &self, const H5Node &input)
{
    VecF ox, oy, oz, w, alpha, theta;
    input.read("ang_quad/omega_x", ox);
    input.read("ang_quad/omega_y", oy);
    input.read("ang_quad/omega_z", oz);
    input.read("ang_quad/weight", w);
    input.read("ang_quad/alpha", alpha);
    input.read("ang_quad/theta", theta);
    input.read("ang_quad/n_azimuthal", self.n_azimuthal_);
    input.read("ang_quad/n_polar", self.n_polar_);
    if (ox.size() != oy.size() || ox.size() != oz.size() || ox.size() != w.size() || ox.size() != alpha.size() ||
        ox.size() != theta.size()) {
        throw EXCEPT("sizes");
    }
    int n = ox.size();
    if (n % 8 != 0) {
        throw EXCEPT("octants");
    }
    self.ndir_oct_ = n / 8;
    for (int i = 0; i < n; i++) {
        self.angles_.emplace_back(ox[i], oy[i], oz[i], w[i]);
        self.angles_.back().theta = theta[i];
        self.angles_.back().alpha = alpha[i];
    }
    self.type_ = QuadratureType::IMPORT;
}

void AngularQuadrature__update_weights(AngularQuadrature &self)
{
    if (self.type_ == QuadratureType::CHEB_GAUSS || self.type_ == QuadratureType::CHEB_YAMAMOTO) {
        self.update_chebyshev_weights();
    }
}

void AngularQuadrature__output(const AngularQuadrature &self, H5Node &node)
{
    VecF alpha, theta, ox, oy, oz, w;
    for (const auto &a : self.angles_) {
        alpha.push_back(a.alpha);
        theta.push_back(a.theta);
        ox.push_back(a.ox);
        oy.push_back(a.oy);
        oz.push_back(a.oz);
        w.push_back(a.weight);
    }
    auto g = node.create_group("ang_quad");
    g.write("n_polar", self.n_polar_);
    g.write("n_azimuthal", self.n_azimuthal_);
    g.write("alpha", alpha);
    g.write("theta", theta);
    g.write("omega_x", ox);
    g.write("omega_y", oy);
    g.write("omega_z", oz);
    g.write("weight", w);
}

bool AngularQuadrature__eq(const AngularQuadrature &self, const AngularQuadrature &other)
{
    return self.ndir_oct_ == other.ndir_oct_ && self.angles_ == other.angles_;
}

std::vector<std::pair<real_t, real_t>> GenGauss(int n_polar)
{
    std::vector<std::pair<real_t, real_t>> out;
    int n = n_polar * 2;
    ArrayB1 y(n), y0(n), Lp(n), w(n);
    ArrayB2 L(n, n + 1);
    for (int i = 0; i < n; i++) {
        y(i) = cos((2 * i + 1) * PI / (2 * n)) +
               0.27 / n * sin(PI * (-1.0 + i * (2.0 / (n - 1))) * (n - 1) / (n + 1));
    }
    y0 = 2;
    while (max(abs(y - y0)) > REAL_FUZZ) {
        L(blitz::Range::all(), 0) = 1;
        L(blitz::Range::all(), 1) = y;
        for (int k = 1; k < n; k++) {
            for (int m = 0; m < n; m++) {
                L(m, k + 1) = ((2 * k + 1) * y(m) * L(m, k) - k * L(m, k - 1)) / (k + 1);
            }
        }
        for (int i = 0; i < n; i++) {
            Lp(i) = (n + 1) * (L(i, n - 1) - y(i) * L(i, n)) / (1 - y(i) * y(i));
        }
        y0 = y;
        for (int i = 0; i < n; i++) {
            y(i) = y0(i) - L(i, n) / Lp(i);
        }
    }
    for (int i = 0; i < n; i++) {
        w(i) = 1.0 / ((1 - y(i) * y(i)) * Lp(i) * Lp(i)) * (n + 1) * (n + 1) / (n * n);
    }
    y        = acos(y);
    real_t t = 0;
    for (int i = 0; i < n_polar; i++) {
        t            = y(i);
        y(i)         = y(n - 1 - i);
        y(n - 1 - i) = t;
    }
    for (int i = n_polar; i < n; i++) {
        out.emplace_back(y(i), w(i));
    }
    return out;
}

void AngularQuadrature__xml(AngularQuadrature &self, const pugi::xml_node &input)
{
    if (input.empty()) {
        throw EXCEPT("none");
    }
    if (input.name() != std::string("ang_quad")) {
        throw EXCEPT("tag");
    }
    self.n_azimuthal_ = input.attribute("n_azimuthal").as_int(-1);
    self.n_polar_     = input.attribute("n_polar").as_int(-1);
    std::string type  = input.attribute("type").value();
    sanitize(type);
    bool product = type == "cg" || type == "chebyshev-gauss" || type == "cy" || type == "chebyshev-yamamoto";
    if (product && (self.n_azimuthal_ < 1 || self.n_polar_ < 1)) {
        throw EXCEPT("number");
    }
    if (type == "ls" || type == "level-symmetric") {
        self.type_   = QuadratureType::LS;
        self.angles_ = ::GenSn(input.attribute("order").as_int(-1));
    } else if (type == "cg" || type == "chebyshev-gauss") {
        self.type_   = QuadratureType::CHEB_GAUSS;
        self.angles_ = ::GenProduct(::GenChebyshev(self.n_azimuthal_), ::GenGauss(self.n_polar_));
    } else if (type == "cy" || type == "chebyshev-yamamoto") {
        self.type_   = QuadratureType::CHEB_YAMAMOTO;
        self.angles_ = ::GenProduct(::GenChebyshev(self.n_azimuthal_), ::GenYamamoto(self.n_polar_));
    } else if (type == "user") {
        self.type_   = QuadratureType::USER;
        self.angles_ = mocc::GenUserQuadrature(input);
    } else {
        throw EXCEPT("type");
    }
    self.ndir_oct_ = self.angles_.size();
    for (int o = 2; o < 9; o++) {
        for (int i = 0; i < self.ndir_oct_; i++) {
            Angle a = self.angles_[i];
            self.angles_.push_back(a.to_octant(o));
        }
    }
}

void AngularQuadrature__update_chebyshev_weights(AngularQuadrature &self)
{
    std::vector<std::pair<real_t, real_t>> polar;
    if (self.type_ == QuadratureType::CHEB_GAUSS) {
        polar = ::GenGauss(self.n_polar_);
    } else if (self.type_ == QuadratureType::CHEB_YAMAMOTO) {
        polar = ::GenYamamoto(self.n_polar_);
    } else {
        throw EXCEPT("type");
    }
    VecF azi;
    for (auto it = self.octant(1); it != self.octant(2); ++it) {
        azi.push_back(it->alpha);
    }
    std::sort(azi.begin(), azi.end());
    azi.erase(std::unique(azi.begin(), azi.end(), fp_equiv_ulp), azi.end());
    if ((int)azi.size() != self.n_azimuthal_) {
        throw EXCEPT("count");
    }
    VecF bound;
    bound.push_back(0.0);
    for (int i = 0; i < self.n_azimuthal_ - 1; i++) {
        bound.push_back(0.5 * (azi[i] + azi[i + 1]));
    }
    bound.push_back(HPI);
    std::vector<std::pair<real_t, real_t>> pairs;
    int i = 0;
    for (real_t a : azi) {
        pairs.emplace_back(a, (bound[i + 1] - bound[i]) / HPI);
        i++;
    }
    self.angles_ = ::GenProduct(pairs, polar);
    for (int o = 2; o < 9; o++) {
        for (int i = 0; i < self.ndir_oct_; i++) {
            Angle a = self.angles_[i];
            self.angles_.push_back(a.to_octant(o));
        }
    }
}
}
