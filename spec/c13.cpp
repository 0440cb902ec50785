#include "core/core_mesh.hpp"
#include "core/geometry/geom.hpp"
#include "core/pin_mesh_cyl.hpp"
#include "core/pin_mesh_rect.hpp"
#include "util/error.hpp"
#include "util/string_utils.hpp"
#include "pugixml.hpp"
#include "common.hpp"
#include <algorithm>
#include <sstream>
using std::string;
using std::stringstream;

namespace ref {
// A point of a direction of flight meets the line when its signed distance
// from it, carried along, vanishes.
real_t Line__distance_to_surface(const Line &self, Point2 p, Direction dir, bool coincident)
{
    const real_t far = std::numeric_limits<real_t>::max();
    if (coincident) {
        return far;
    }
    real_t ux    = self.p2.x - self.p1.x;
    real_t uy    = self.p2.y - self.p1.y;
    real_t off   = ux * (p.y - self.p1.y) - uy * (p.x - self.p1.x);
    real_t speed = ux * dir.oy - uy * dir.ox;
    if (std::abs(speed) < REAL_FUZZ) {
        return far;
    }
    real_t d = -off / speed;
    return d > 0.0 && std::abs(off) > REAL_FUZZ ? d : far;
}

real_t Circle__distance_to_surface(const Circle &self, Point2 p, Direction dir, bool coincident)
{
    const real_t far = std::numeric_limits<real_t>::max();
    // |p + s*dir - c|^2 = r^2
    real_t a = 1.0 - dir.oz * dir.oz;
    real_t x = p.x - self.c.x;
    real_t y = p.y - self.c.y;
    real_t k = x * dir.ox + y * dir.oy;
    real_t c = x * x + y * y - self.r * self.r;
    real_t q = k * k - a * c;
    if (a == 0.0 || q < 0.0) {
        return far;
    }
    real_t near_d = (-k - std::sqrt(q)) / a;
    real_t far_d  = (-k + std::sqrt(q)) / a;
    if (coincident || std::abs(c) < REAL_FUZZ) {
        return k < 0.0 ? far_d : far;
    }
    if (c < 0.0) {
        return far_d;
    }
    return near_d >= 0.0 ? near_d : far;
}

std::pair<real_t, Surface> Box__distance_to_surface(const Box &self, Point2 p, Direction dir)
{
    real_t dist  = std::numeric_limits<real_t>::max();
    Surface surf = Surface::INTERNAL;
    int n = 0;
    for (const auto &l : self.lines_) {
        real_t d = l.distance_to_surface(p, dir, false);
        if (d < dist) {
            dist = d;
            surf = (Surface)n;
        }
        n++;
    }
    return std::pair<real_t, Surface>(dist, surf);
}

// The faces in the order east, north, west, south
void Box__ctor(Box &self, Point2 a, Point2 b)
{
    real_t x0 = std::min(a.x, b.x), x1 = std::max(a.x, b.x);
    real_t y0 = std::min(a.y, b.y), y1 = std::max(a.y, b.y);
    self.p1_  = Point2(x0, y0);
    self.p2_  = Point2(x1, y1);
    self.lines_ = {{Line(Point2(x1, y0), self.p2_), Line(Point2(x0, y1), self.p2_),
                    Line(self.p1_, Point2(x0, y1)), Line(self.p1_, Point2(x1, y0))}};
}

// The nearest crossing of the four sides ahead of the point
Point2 Box__intersect(const Box &self, Point2 p, Angle ang)
{
    real_t ox = cos(ang.alpha);
    real_t oy = sin(ang.alpha);
    real_t dmin = 1.0e12;
    Point2 out;
    for (int side = 0; side < 2; side++) {
        real_t x = side == 0 ? self.p1_.x : self.p2_.x;
        real_t d = (x - p.x) / ox;
        real_t y = p.y + oy * d;
        if (d > REAL_FUZZ && d < dmin && y > self.p1_.y - REAL_FUZZ && y < self.p2_.y + REAL_FUZZ) {
            dmin   = d;
            out.x  = x;
            out.y  = y;
            out.ok = true;
        }
    }
    for (int side = 0; side < 2; side++) {
        real_t y = side == 0 ? self.p1_.y : self.p2_.y;
        real_t d = (y - p.y) / oy;
        real_t x = p.x + ox * d;
        if (d > REAL_FUZZ && d < dmin && x > self.p1_.x - REAL_FUZZ && x < self.p2_.x + REAL_FUZZ) {
            dmin   = d;
            out.x  = x;
            out.y  = y;
            out.ok = true;
        }
    }
    return out;
}

void Line__ctor(Line &self, Point2 a, Point2 b)
{
    self.p1 = a;
    self.p2 = b;
}

void Circle__ctor(Circle &self, Point2 c, real_t r)
{
    self.c = c;
    self.r = r;
}

void Point2__ctor(Point2 &self, real_t x, real_t y)
{
    self.x  = x;
    self.y  = y;
    self.ok = true;
}

void Point2__none(Point2 &self)
{
    self.ok = false;
}

real_t Point2__distance(Point2 &self, Point2 p)
{
    real_t dx = p.x - self.x, dy = p.y - self.y;
    return sqrt(dx * dx + dy * dy);
}

bool Point2__less(const Point2 &self, const Point2 &o)
{
    return self.y < o.y;
}

bool Point2__equal(const Point2 &self, const Point2 &o)
{
    return fp_equiv(self.x, o.x) && fp_equiv(self.y, o.y);
}

bool Point2__differ(const Point2 &self, const Point2 &o)
{
    return !(fp_equiv(self.x, o.x) && fp_equiv(self.y, o.y));
}

Point2 &Point2__subtract(Point2 &self, const Point2 &o)
{
    self.x = self.x - o.x;
    self.y = self.y - o.y;
    return self;
}

real_t Point2__alpha(const Point2 &self)
{
    return self.y > 0.0 ? atan2(self.y, self.x) : atan2(self.y, self.x) + TWOPI;
}

void Point3__ctor(Point3 &self, real_t x, real_t y, real_t z)
{
    self.x  = x;
    self.y  = y;
    self.z  = z;
    self.ok = true;
}

real_t Point3__distance(Point3 &self, Point3 p)
{
    real_t dx = p.x - self.x, dy = p.y - self.y, dz = p.z - self.z;
    return sqrt(dx * dx + dy * dy + dz * dz);
}

Point3 &Point3__subtract(Point3 &self, const Point3 &o)
{
    self.x = self.x - o.x;
    self.y = self.y - o.y;
    self.z = self.z - o.z;
    return self;
}

Point2 Point3__to_2d(const Point3 &self)
{
    return Point2(self.x, self.y);
}

Point2 fn__Midpoint(const Point2 a, const Point2 b)
{
    return Point2((a.x + b.x) * 0.5, (a.y + b.y) * 0.5);
}

void Direction__angles(Direction &self, real_t alpha, real_t theta)
{
    self.alpha     = alpha;
    self.theta     = theta;
    self.ox        = std::sin((long double)theta) * std::cos((long double)alpha);
    self.oy        = std::sin((long double)theta) * std::sin((long double)alpha);
    self.oz        = std::cos((long double)theta);
    self.rsintheta = 1.0 / std::sin((long double)theta);
}

void Direction__cosines(Direction &self, real_t ox, real_t oy, real_t oz)
{
    self.ox        = ox;
    self.oy        = oy;
    self.oz        = oz;
    long double theta = std::acos((long double)oz);
    self.theta     = theta;
    real_t alpha   = std::acos((long double)ox / std::sin(theta));
    self.alpha     = oy < 0.0 ? TWOPI - alpha : alpha;
    self.rsintheta = 1.0l / std::sin(theta);
}

void Direction__modify_alpha(Direction &self, real_t a)
{
    self = Direction(a, self.theta);
}

Surface Direction__upwind_surface(const Direction &self, Normal n)
{
    if (n == Normal::X_NORM) {
        return self.ox > 0.0 ? Surface::WEST : Surface::EAST;
    }
    if (n == Normal::Y_NORM) {
        return self.oy > 0.0 ? Surface::SOUTH : Surface::NORTH;
    }
    if (n == Normal::Z_NORM) {
        return self.oz > 0.0 ? Surface::BOTTOM : Surface::TOP;
    }
    return Surface::INVALID;
}

void Direction__reflect(Direction &self, Surface s)
{
    if (s == Surface::EAST || s == Surface::WEST) {
        self = Direction(-self.ox, self.oy, self.oz);
    }
    if (s == Surface::NORTH || s == Surface::SOUTH) {
        self = Direction(self.ox, -self.oy, self.oz);
    }
    if (s == Surface::TOP || s == Surface::BOTTOM) {
        self = Direction(self.ox, self.oy, -self.oz);
    }
}

Direction Direction__Isotropic(real_t r1, real_t r2)
{
    return Direction(TWOPI * r1, std::acos(2.0 * r2 - 1.0));
}

int fn__Intersect_circle(Line l, Circle circ, Point2 &p1, Point2 &p2)
{
    int ret   = 0;
    real_t u1 = l.p2.x - l.p1.x;
    real_t u2 = l.p2.y - l.p1.y;
    real_t w1 = l.p1.x - circ.c.x;
    real_t w2 = l.p1.y - circ.c.y;
    real_t b = w1 * u1 + w2 * u2;
    real_t c = w1 * w1 + w2 * w2 - circ.r * circ.r;
    if ((c > 0.0) & (b > 0.0)) {
        p1.ok = false;
        p2.ok = false;
        return 0;
    }
    real_t a            = u1 * u1 + u2 * u2;
    real_t discriminant = b * b - a * c;
    if (discriminant < 0.0) {
        p1.ok = false;
        p2.ok = false;
        return 0;
    }
    else if (fp_equiv_rel(discriminant, 0.0)) {
        p1.ok = false;
        p2.ok = false;
        return 0;
    }
    else {
        p1.ok = true;
        p2.ok = true;
        real_t ra    = 1.0 / a;
        discriminant = sqrt(discriminant);
        real_t t1    = (-b - discriminant) * ra;
        real_t t2    = (-b + discriminant) * ra;
        if ((0.0 < t1) & (t1 < 1.0)) {
            p1 = l.p1;
            p1.x += u1 * t1;
            p1.y += u2 * t1;
            p1.ok = true;
            ret++;
        }
        if ((0.0 < t2) & (t2 < 1.0)) {
            if (ret == 0) {
                p1 = l.p1;
                p1.x += u1 * t2;
                p1.y += u2 * t2;
                p1.ok = true;
            }
            else {
                p2 = l.p1;
                p2.x += u1 * t2;
                p2.y += u2 * t2;
                p2.ok = true;
            }
            ret++;
        }
        return ret;
    }
}

int fn__Intersect_lines(Line l1, Line l2, Point2 &p)
{
    real_t u1 = l1.p2.x - l1.p1.x;
    real_t u2 = l1.p2.y - l1.p1.y;
    real_t v1 = l2.p2.x - l2.p1.x;
    real_t v2 = l2.p2.y - l2.p1.y;
    real_t w1 = l1.p1.x - l2.p1.x;
    real_t w2 = l1.p1.y - l2.p1.y;
    real_t d = u1 * v2 - u2 * v1;
    real_t s = v1 * w2 - v2 * w1;
    real_t t = u1 * w2 - u2 * w1;
    s = s / d;
    t = t / d;
    if ((0.0 <= s) & (s <= 1.0) & (0.0 <= t) & (t <= 1.0)) {
        p = l1.p1;
        p.x += s * u1;
        p.y += s * u2;
        p.ok = true;
        return 1;
    }
    else {
        p.ok = false;
        return 0;
    }
}

void PinMesh_Cyl__ctor(PinMesh_Cyl &self, const pugi::xml_node &input)
{
    {
        stringstream radiiIn(input.child("radii").child_value());
        while (!radiiIn.eof()) {
            mocc::real_t rad;
            radiiIn >> rad;
            self.xs_radii_.push_back(rad);
            if (radiiIn.fail()) {
                stringstream msg;
                msg << "Ran into a problem reading radii for pin ID=" << self.id_;
                throw EXCEPT(msg.str().c_str());
            }
        }
        if (!radiiIn.eof()) {
            stringstream msg;
            msg << "Dangling data in radii for pin ID=" << self.id_;
        }
        for (unsigned int i = 0; i < self.xs_radii_.size() - 1; i++) {
            if (self.xs_radii_[i] > self.xs_radii_[i + 1]) {
                stringstream msg;
                msg << "Pin radii do not appear to be ordered for pin ID="
                    << self.id_;
                throw EXCEPT(msg.str());
            }
        }
        if (self.xs_radii_.front() <= 0.0) {
            throw EXCEPT("Pin radii must be positive.");
        }
        if (self.xs_radii_.back() > std::min(self.pitch_x_, self.pitch_y_) * 0.5) {
            throw EXCEPT("Largest radius is too big!");
        }
        self.n_xsreg_ = self.xs_radii_.size() + 1;
    }
    {
        self.sub_azi_ = VecI();
        stringstream inBuf(input.child("sub_azi").child_value());
        int azi;
        inBuf >> azi;
        if (inBuf.fail()) {
            throw EXCEPT("Improper input to azimuthal subdivisions!");
        }
        self.sub_azi_.push_back(azi);
        if (self.sub_azi_.size() > 1) {
            throw EXCEPT("Only supporting on azi type for now.");
        }
        if ((self.sub_azi_[0] % 2 != 0) | (self.sub_azi_[0] > 8) | (self.sub_azi_[0] < 1)) {
            throw EXCEPT("Only supporting even azimuthal subdivisions "
                         "<=8.");
        }
    }
    {
        self.sub_rad_ = explode_string<int>(input.child("sub_radii").child_value());
        if ((int)self.sub_rad_.size() != (self.n_xsreg_ - 1)) {
            throw EXCEPT("Wrong number of radial subdivisions specified.");
        }
        for (auto n : self.sub_rad_) {
            if (n < 1) {
                throw EXCEPT("Radial subdivisions must be positive.");
            }
        }
    }
    double rxsi = 0.0;
    double ri   = 0.0;
    for (int ixs = 0; ixs < self.n_xsreg_ - 1; ixs++) {
        double vn =
            (self.xs_radii_[ixs] * self.xs_radii_[ixs] - rxsi * rxsi) / self.sub_rad_[ixs];
        for (int ir = 0; ir < self.sub_rad_[ixs]; ir++) {
            double r = sqrt(vn + ri * ri);
            self.radii_.push_back(r);
            ri = r;
        }
        rxsi = self.xs_radii_[ixs];
    }
    Point2 origin(0.0, 0.0);
    for (auto ri = self.radii_.begin(); ri != self.radii_.end(); ++ri) {
        self.circles_.push_back(Circle(origin, *ri));
    }
    real_t h_pitch_x = 0.5 * self.pitch_x_;
    real_t h_pitch_y = 0.5 * self.pitch_y_;
    int n_azi        = self.sub_azi_[0];
    Box pin_box(Point2(-h_pitch_x, -h_pitch_y), Point2(h_pitch_x, h_pitch_y));
    real_t ang_sep = TWOPI / n_azi;
    for (int iazi = 0; iazi < n_azi; iazi++) {
        Angle ang(iazi * ang_sep, HPI, 0.0);
        Point2 p = pin_box.intersect(origin, ang);
        self.lines_.push_back(Line(origin, p));
    }
    self.n_reg_ = (self.radii_.size() + 1) * self.sub_azi_[0];
    real_t prev_r = 0.0;
    for (auto &ri : self.radii_) {
        real_t ai = PI * (ri * ri - prev_r * prev_r) / n_azi;
        for (int iazi = 0; iazi < n_azi; iazi++) {
            self.areas_.push_back(ai);
        }
        prev_r = ri;
    }
    real_t large_r = self.radii_[self.radii_.size() - 1];
    real_t v_outer = (self.pitch_x_ * self.pitch_y_ - PI * large_r * large_r) / n_azi;
    for (int ia = 0; ia < n_azi; ia++) {
        self.areas_.push_back(v_outer);
    }
}

int PinMesh_Cyl__trace(const PinMesh_Cyl &self, Point2 p1, Point2 p2, int first_reg, VecF &s, VecI &reg)
{
    Line l(p1, p2);
    std::vector<Point2> ps;
    ps.push_back(p1);
    ps.push_back(p2);
    for (const auto &ci : self.circles_) {
        Point2 p1;
        Point2 p2;
        int ret = Intersect(l, ci, p1, p2);
        if (ret == 2) {
            ps.push_back(p1);
            ps.push_back(p2);
        }
    }
    for (const auto &li : self.lines_) {
        Point2 p;
        int ret = Intersect(li, l, p);
        if (ret == 1) {
            ps.push_back(p);
        }
    }
    std::sort(ps.begin(), ps.end());
    ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
    for (unsigned int ip = 1; ip < ps.size(); ip++) {
        s.push_back(ps[ip].distance(ps[ip - 1]));
        unsigned int local_reg = self.find_reg(Midpoint(ps[ip], ps[ip - 1]));
        reg.push_back(local_reg + first_reg);
    }
    return ps.size() - 1;
}

int PinMesh_Cyl__find_reg(const PinMesh_Cyl &self, Point2 p)
{
    if ((fabs(p.x) > 0.5 * self.pitch_x_) || (fabs(p.y) > 0.5 * self.pitch_y_)) {
        return -1;
    }
    real_t r        = sqrt(p.x * p.x + p.y * p.y);
    unsigned int ir = 0;
    for (ir = 0; ir < self.radii_.size(); ir++) {
        if (r < self.radii_[ir]) {
            break;
        }
    }
    real_t azi = p.alpha();
    int ia     = azi / (TWOPI / self.sub_azi_[0]);
    ia         = std::min(ia, self.sub_azi_[0] - 1);
    int ireg   = ir * self.sub_azi_[0] + ia;
    return ireg;
}

int PinMesh_Cyl__find_along(const PinMesh_Cyl &self, Point2 p, Direction dir)
{
    if (((p.x < -0.5 * self.pitch_x_) && (dir.ox < 0.0)) ||
        ((p.x > 0.5 * self.pitch_x_) && (dir.ox > 0.0)) ||
        ((p.y < -0.5 * self.pitch_y_) && (dir.oy < 0.0)) ||
        ((p.y > 0.5 * self.pitch_y_) && (dir.oy > 0.0))) {
        return -1;
    }
    real_t r = sqrt(p.x * p.x + p.y * p.y);
    int ir   = std::distance(
        self.radii_.begin(),
        std::lower_bound(self.radii_.begin(), self.radii_.end(), r, fuzzy_lt));
    if (ir < (int)self.radii_.size() && fp_equiv_ulp(r, self.radii_[ir])) {
        real_t dot = p.x * dir.ox + p.y * dir.oy;
        if (dot > 0.0) {
            ir++;
        }
    }
    real_t azi = p.alpha();
    if (fp_equiv_ulp(azi, TWOPI)) {
        azi = (dir.alpha > PI) ? TWOPI : 0.0;
    }
    real_t azi_space = (TWOPI / self.sub_azi_[0]);
    real_t azi_div   = azi / azi_space;
    int closest_azi  = std::round(azi_div);
    int ia = -1;
    if (fp_equiv_abs(closest_azi * azi_space, azi)) {
        ia = (azi < dir.alpha) ? closest_azi : closest_azi - 1;
    } else {
        ia = (int)azi_div;
    }
    ia = ia % self.sub_azi_[0];
    int ireg = ir * self.sub_azi_[0] + ia;
    return ireg;
}

std::pair<real_t, bool> PinMesh_Cyl__distance_to_surface(const PinMesh_Cyl &self, Point2 p, Direction dir, int &coincident)
{
    std::pair<real_t, bool> ret = {std::numeric_limits<real_t>::max(), true};
    int coinc = coincident;
    if ((std::abs(p.x) > 0.5 * self.pitch_x_) || (std::abs(p.y) > 0.5 * self.pitch_y_)) {
        ret.first  = 0.0;
        ret.second = true;
        return ret;
    }
    real_t dist = std::numeric_limits<real_t>::max();
    ret.second = false;
    for (const auto &c : self.circles_) {
        real_t d = c.distance_to_surface(p, dir, (coincident == c.surf_id));
        if ((d < dist)) {
            coinc = c.surf_id;
            dist  = d;
        }
    }
    for (const auto &l : self.lines_) {
        real_t d = l.distance_to_surface(p, dir, (coincident == l.surf_id));
        if ((d < dist)) {
            coinc = l.surf_id;
            dist  = d;
        }
    }
    coincident = coinc;
    ret.first = dist;
    return ret;
}

void PinMesh_Rect__ctor(PinMesh_Rect &self, const pugi::xml_node &input)
{
    int ndiv_x = input.child("sub_x").text().as_int(0);
    if (ndiv_x < 1) {
        throw EXCEPT("Failed to read valid number of X divisions in rect "
                     "pin mesh.");
    }
    int ndiv_y = input.child("sub_y").text().as_int(0);
    if (ndiv_y < 1) {
        throw EXCEPT("Failed to read valid number of Y divisions in rect "
                     "pin mesh.");
    }
    self.n_xsreg_ = ndiv_x * ndiv_y;
    self.n_reg_   = ndiv_x * ndiv_y;
    self.nx_ = ndiv_x;
    self.ny_ = ndiv_y;
    real_t dx = self.pitch_x_ / ndiv_x;
    real_t dy = self.pitch_y_ / ndiv_y;
    real_t h_pitch_x = 0.5 * self.pitch_x_;
    real_t h_pitch_y = 0.5 * self.pitch_y_;
    for (int i = 0; i <= ndiv_x; i++) {
        self.hx_.push_back(i * dx - h_pitch_x);
    }
    for (int i = 0; i <= ndiv_y; i++) {
        self.hy_.push_back(i * dy - h_pitch_y);
    }
    for (unsigned ix = 1; ix < self.hx_.size() - 1; ix++) {
        real_t xi = self.hx_[ix];
        self.lines_.push_back(Line(Point2(xi, -h_pitch_y), Point2(xi, h_pitch_y)));
    }
    for (unsigned iy = 1; iy < self.hy_.size() - 1; iy++) {
        real_t yi = self.hy_[iy];
        self.lines_.push_back(Line(Point2(-h_pitch_x, yi), Point2(h_pitch_x, yi)));
    }
    self.areas_ = VecF(self.n_reg_, dx * dy);
}

int PinMesh_Rect__trace(const PinMesh_Rect &self, Point2 p1, Point2 p2, int first_reg, VecF &s, VecI &reg)
{
    std::vector<Point2> ps;
    ps.push_back(p1);
    ps.push_back(p2);
    Line l(p1, p2);
    for (auto &li : self.lines_) {
        Point2 p;
        int ret = Intersect(li, l, p);
        if (ret == 1) {
            ps.push_back(p);
        }
    }
    std::sort(ps.begin(), ps.end());
    ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
    for (unsigned int ip = 1; ip < ps.size(); ip++) {
        s.push_back(ps[ip].distance(ps[ip - 1]));
        reg.push_back(self.find_reg(Midpoint(ps[ip], ps[ip - 1])) + first_reg);
    }
    return ps.size() - 1;
}

int PinMesh_Rect__find_reg(const PinMesh_Rect &self, Point2 p)
{
    if (fabs(p.x) > 0.5 * self.pitch_x_) {
        return -1;
    }
    if (fabs(p.y) > 0.5 * self.pitch_y_) {
        return -1;
    }
    int ix = std::distance(
        self.hx_.begin(), std::lower_bound(self.hx_.cbegin(), self.hx_.cend(), p.x));
    int iy = std::distance(
        self.hy_.begin(), std::lower_bound(self.hy_.cbegin(), self.hy_.cend(), p.y));
    ix = std::max(0, ix - 1);
    iy = std::max(0, iy - 1);
    int ireg = self.nx_ * iy + ix ;
    return ireg;
}

int PinMesh_Rect__find_along(const PinMesh_Rect &self, Point2 p, Direction dir)
{
    if (((p.x < -0.5 * self.pitch_x_ + REAL_FUZZ) && (dir.ox < 0.0)) ||
        ((p.x > 0.5 * self.pitch_x_ - REAL_FUZZ) && (dir.ox > 0.0)) ||
        ((p.y < -0.5 * self.pitch_y_ + REAL_FUZZ) && (dir.oy < 0.0)) ||
        ((p.y > 0.5 * self.pitch_y_ - REAL_FUZZ) && (dir.oy > 0.0))) {
        return -1;
    }
    int ix = std::distance(
        self.hx_.begin(), std::lower_bound(self.hx_.begin(), self.hx_.end(), p.x, fuzzy_lt));
    if (fp_equiv(p.x, self.hx_[ix])) {
        ix = (dir.ox > 0.0) ? ix + 1 : ix;
    }
    ix = std::max(0, std::min((int)self.nx_ - 1, ix-1));
    int iy = std::distance(
        self.hy_.begin(), std::lower_bound(self.hy_.begin(), self.hy_.end(), p.y, fuzzy_lt));
    if (fp_equiv(p.y, self.hy_[iy])) {
        iy = (dir.oy > 0.0) ? iy + 1 : iy;
    }
    iy = std::max(0, std::min((int)self.ny_ - 1, iy-1));
    int ireg = self.nx_ * iy + ix;
    return ireg;
}

std::pair<real_t, bool> PinMesh_Rect__distance_to_surface(const PinMesh_Rect &self, Point2 p, Direction dir, int &coincident)
{
    std::pair<real_t, bool> ret;
    int coinc = coincident;
    if ((std::abs(p.x) > 0.5 * self.pitch_x_) || (std::abs(p.y) > 0.5 * self.pitch_y_)) {
        ret.first  = 0.0;
        ret.second = true;
        return ret;
    }
    ret.second = false;
    ret.first  = std::numeric_limits<real_t>::max();
    for (const auto &l : self.lines_) {
        real_t d  = l.distance_to_surface(p, dir, (coincident == l.surf_id));
        if((d < ret.first)) {
            ret.first = d;
            coinc = l.surf_id;
        }
    }
    coincident = coinc;
    return ret;
}

size_t PinMesh_Cyl__n_fsrs(const PinMesh_Cyl &self, unsigned int xsreg)
{
    int n = 0;
    if (xsreg < self.xs_radii_.size()) {
        n = self.sub_rad_[xsreg] * self.sub_azi_[0];
    }
    else {
        n = self.sub_azi_[0];
    }
    return n;
}

size_t PinMesh_Rect__n_fsrs(const PinMesh_Rect &self, unsigned int xsreg)
{
    return 1;
}

static void set(Direction &self, const Direction &d)
{
    self.ox        = d.ox;
    self.oy        = d.oy;
    self.oz        = d.oz;
    self.alpha     = d.alpha;
    self.theta     = d.theta;
    self.rsintheta = d.rsintheta;
}

void Angle__angles(Angle &self, real_t alpha, real_t theta, real_t weight)
{
    set(self, Direction(alpha, theta));
    self.weight = weight;
}

void Angle__cosines(Angle &self, real_t ox, real_t oy, real_t oz, real_t weight)
{
    set(self, Direction(ox, oy, oz));
    self.weight = weight;
}

void Angle__direction(Angle &self, Direction d, real_t weight)
{
    set(self, d);
    self.weight = weight;
}

void Angle__input(Angle &self, const pugi::xml_node &input)
{
    real_t weight = input.attribute("weight").as_double(0.0);
    if (weight <= 0.0) {
        throw EXCEPT("weight");
    }
    bool cosines = !input.attribute("ox").empty();
    bool alpha_given = !input.attribute("alpha").empty();
    if (cosines) {
        if (alpha_given || !input.attribute("theta").empty()) {
            throw EXCEPT("both");
        }
        real_t ox = input.attribute("ox").as_double(2.0);
        real_t oy = input.attribute("oy").as_double(2.0);
        real_t oz = input.attribute("oz").as_double(2.0);
        if (!(-1.0 < ox && ox < 1.0) || ox == 0.0) {
            throw EXCEPT("ox");
        }
        if (!(-1.0 < oy && oy < 1.0) || oy == 0.0) {
            throw EXCEPT("oy");
        }
        if (!(-1.0 < oz && oz < 1.0) || oz == 0.0) {
            throw EXCEPT("oz");
        }
        if (!fp_equiv_ulp(sqrt(ox * ox + oy * oy + oz * oz), 1.0)) {
            throw EXCEPT("unit sphere");
        }
        self = Angle(ox, oy, oz, weight);
        return;
    }
    if (!alpha_given) {
        throw EXCEPT("no direction");
    }
    if (cosines || !input.attribute("oy").empty() || !input.attribute("oz").empty()) {
        throw EXCEPT("both");
    }
    real_t theta = input.attribute("theta").as_double();
    real_t alpha = input.attribute("alpha").as_double();
    if (theta <= -HPI || theta >= HPI || theta == 0.0) {
        throw EXCEPT("theta");
    }
    if (alpha < 0.0 || alpha >= TWOPI || alpha == 0.0 || alpha == HPI || alpha == PI || alpha == 3.0 * HPI) {
        throw EXCEPT("alpha");
    }
    self = Angle(alpha, theta, weight);
}

Angle Angle__to_octant(const Angle &self, int octant)
{
    return Angle(self.Direction::to_octant(octant), self.weight);
}

bool Angle__differ(const Angle &self, const Angle &o)
{
    return !(fp_equiv_ulp(self.weight, o.weight) && fp_equiv_ulp(self.ox, o.ox) && fp_equiv_ulp(self.oy, o.oy) &&
             fp_equiv_ulp(self.oz, o.oz) && fp_equiv_ulp(self.alpha, o.alpha) && fp_equiv_ulp(self.theta, o.theta) &&
             fp_equiv_ulp(self.rsintheta, o.rsintheta));
}

bool Direction__differ(const Direction &self, const Direction &o)
{
    return !(fp_equiv_ulp(self.ox, o.ox) && fp_equiv_ulp(self.oy, o.oy) && fp_equiv_ulp(self.oz, o.oz) &&
             fp_equiv_ulp(self.alpha, o.alpha) && fp_equiv_ulp(self.theta, o.theta) &&
             fp_equiv_ulp(self.rsintheta, o.rsintheta));
}

// Octants 1 to 4 go counter-clockwise from the north-east and point up,
// 5 to 8 are below them
Direction Direction__to_octant(const Direction &self, int octant)
{
    real_t x = fabs(self.ox), y = fabs(self.oy), z = fabs(self.oz);
    bool ne = octant == 1 || octant == 5;
    bool nw = octant == 2 || octant == 6;
    bool sw = octant == 3 || octant == 7;
    bool se = octant == 4 || octant == 8;
    bool up = octant == 1 || octant == 2 || octant == 3 || octant == 4;
    if (!(ne || nw || sw || se)) {
        return Direction(0.0, 0.0, 0.0);
    }
    return Direction(nw || sw ? -x : x, sw || se ? -y : y, up ? z : -z);
}

bool fn__fp_equiv_rel(real_t a, real_t b)
{
    return std::abs(a - b) / std::abs(a) < REAL_FUZZ;
}

bool fn__fp_equiv_abs(real_t a, real_t b)
{
    return std::abs(a - b) < REAL_FUZZ;
}

bool fn__fp_equiv(real_t a, real_t b)
{
    return fp_equiv_abs(a, b) || ((a < 0.0) == (b < 0.0) && fp_equiv_ulp(a, b));
}

bool fn__fp_equiv_saferel(real_t a, real_t b)
{
    return fp_equiv_abs(a, b) || ((a < 0.0) == (b < 0.0) && fp_equiv_rel(a, b));
}

bool fn__fuzzy_lt(real_t a, real_t b)
{
    return (a - b) / std::abs(b) < -REAL_FUZZ;
}

real_t PinMesh__area(const PinMesh &self)
{
    return self.pitch_x_ * self.pitch_y_;
}

const VecF & PinMesh__areas(const PinMesh &self)
{
    return self.areas_;
}

}
