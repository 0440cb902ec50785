// What is kept from one use to the next, and what makes it be worked out again.
#include "core/source.hpp"
#include "core/xs_mesh_homogenized.hpp"
#include "common.hpp"
#include "util/error.hpp"

namespace ref {
// Storage of its own, holding no group of no state of the cross sections.
void ExpandedXS__ctor(ExpandedXS &self, const XSMesh *mesh)
{
    self.xs_mesh_ = mesh;
    self.xstr_.resize(mesh->n_reg_expanded());
    self.state_ = std::make_shared<std::pair<int, int>>(-1, -1);
}

// Those that share storage share the record of what it holds.
void ExpandedXS__share(ExpandedXS &self, ExpandedXS &other)
{
    self.xstr_    = other.xstr_;
    self.xs_mesh_ = other.xs_mesh_;
    self.state_   = other.state_;
}

void ExpandedXS__assign(ExpandedXS &self, const ExpandedXS &other)
{
    if (&self == &other) {
        return;
    }
    self.xstr_.reference(other.xstr_);
    self.xs_mesh_ = other.xs_mesh_;
    self.state_   = other.state_;
}

// Worked out again for another group, and for another state of the cross
// sections, from the cross sections of that group.
void ExpandedXS__expand(ExpandedXS &self, int group)
{
    bool current = group == self.state_->first && self.xs_mesh_->state() == self.state_->second;
    if (current) {
        return;
    }
    for (const auto &r : *self.xs_mesh_) {
        for (const int i : r.reg()) {
            self.xstr_(i) = r.xsmactr(group);
        }
    }
    self.state_->first  = group;
    self.state_->second = self.xs_mesh_->state();
}

// What is added by splitting may change at any time.
void ExpandedXS__split(ExpandedXS &self, int group, const ArrayB1 split)
{
    if (!(split.size() > 0)) {
        self.expand(group);
        return;
    }
    for (const auto &r : *self.xs_mesh_) {
        for (const int i : r.reg()) {
            self.xstr_(i) = r.xsmactr(group) + split(i);
        }
    }
}

real_t ExpandedXS__at(const ExpandedXS &self, int i)
{
    return self.xstr_(i);
}

int XSMesh__state(const XSMesh &self)
{
    return self.state_;
}

void XSMeshHomogenized__set_flux(XSMeshHomogenized &self, const ArrayB2 &flux)
{
    self.flux_ = &flux;
}

void XSMeshRegion__update_removal(XSMeshRegion &self)
{
    for (int g = 0; g < self.xsmacsc_.n_group(); g++) {
        self.xsmacrm_[g] = self.xsmactr_[g] - self.xsmacsc_.self_scat(g);
    }
}

bool XSMeshRegion__is_fissile(const XSMeshRegion &self)
{
    for (int g = 0; g < self.n_group(); g++) {
        if (self.xsmacnf_[g] > 0.0) {
            return true;
        }
    }
    return false;
}
}
