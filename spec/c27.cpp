#include "core/angular_quadrature.hpp"
#include "core/xs_mesh_homogenized.hpp"
#include "sweepers/cmdo/correction_data.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
#include "common.hpp"
#include <iomanip>
#include <sstream>


namespace ref {
void CorrectionData__output(const CorrectionData &self, H5Node &file)
{
    VecI dims;
    dims.push_back(self.nz_);
    dims.push_back(self.ny_);
    dims.push_back(self.nx_);
    int n = self.nx_ * self.ny_ * self.nz_;
    file.create_group("alpha_x");
    file.create_group("alpha_y");
    file.create_group("beta");
    ArrayB1 slice(n);
    for (int g = 0; g < self.ngroup_; g++) {
        std::stringstream path;
        path << "alpha_x/" << std::setfill('0') << std::setw(3) << g;
        auto ax_g = file.create_group(path.str());
        path.str("");
        path << "alpha_y/" << std::setfill('0') << std::setw(3) << g;
        auto ay_g = file.create_group(path.str());
        path.str("");
        path << "beta/" << std::setfill('0') << std::setw(3) << g;
        auto beta_g = file.create_group(path.str());
        for (int a = 0; a < self.nang_; a++) {
            {
                slice = self.beta_(g, a, blitz::Range::all());
                std::stringstream setname;
                setname << std::setfill('0') << std::setw(3) << a;
                beta_g.write(setname.str(), slice, dims);
            }
            {
                slice = self.alpha_(g, a, blitz::Range::all(), (int)Normal::X_NORM);
                std::stringstream setname;
                setname << std::setfill('0') << std::setw(3) << a;
                ax_g.write(setname.str(), slice, dims);
            }
            {
                slice = self.alpha_(g, a, blitz::Range::all(), (int)Normal::Y_NORM);
                std::stringstream setname;
                setname << std::setfill('0') << std::setw(3) << a;
                ay_g.write(setname.str(), slice, dims);
            }
        }
    }
    return;
}

void CorrectionData__read_data_all(CorrectionData &self, const pugi::xml_node &data)
{
    self.read_data_single(data, 0, self.mesh_->macroplanes().size() - 1);
    return;
}

void CorrectionData__read_data_single(CorrectionData &self, const pugi::xml_node &data, int bottom_plane, int top_plane)
{
    {
        int bot_plane_in = 0;
        int top_plane_in = self.mesh_->macroplanes().size() - 1;
        if (!data.attribute("top_plane").empty()) {
            top_plane_in = data.attribute("top_plane").as_int(-1);
        }
        if (!data.attribute("bottom_plane").empty()) {
            bot_plane_in = data.attribute("bottom_plane").as_int(-1);
        }
        if ((bot_plane_in != bottom_plane) || (top_plane_in != top_plane)) {
            throw EXCEPT("");
        }
    }
    H5Node h5d(data.attribute("file").value(), H5Access::READ);
    auto dims = h5d.dimensions("alpha_x/000/000");
    if ((dims.size() != 3) || (dims[2] != self.nx_) || (dims[1] != self.ny_)) {
        throw EXCEPT("");
    }
    int n_plane = dims[0] == self.nz_ ? self.nz_ : 1;
    int n_cell  = self.nx_ * self.ny_;
    ArrayB1 inbuf(n_cell * n_plane);
    for (int ig = 0; ig < self.ngroup_; ig++) {
        for (int iang = 0; iang < self.nang_; iang++) {
            {
                std::stringstream path;
                path << "/alpha_x/" << std::setw(3) << std::setfill('0') << ig
                     << "/" << std::setw(3) << std::setfill('0') << iang;
                try {
                    h5d.read(path.str(), inbuf);
                } catch (Exception e) {
                    throw EXCEPT("");
                }
                for (int ip = bottom_plane; ip <= top_plane; ip++) {
                    int stt = self.mesh_->plane_cell_begin(ip);
                    int stp = self.mesh_->plane_cell_end(ip) - 1;
                    int in  = n_plane > 1 ? stt : 0;
                    self.alpha_(ig, iang, blitz::Range(stt, stp),
                           (int)Normal::X_NORM) =
                        inbuf(blitz::Range(in, in + n_cell - 1));
                }
            }
            {
                std::stringstream path;
                path << "/alpha_y/" << std::setw(3) << std::setfill('0') << ig
                     << "/" << std::setw(3) << std::setfill('0') << iang;
                try {
                    h5d.read(path.str(), inbuf);
                } catch (Exception e) {
                    throw EXCEPT("");
                }
                for (int ip = bottom_plane; ip <= top_plane; ip++) {
                    int stt = self.mesh_->plane_cell_begin(ip);
                    int stp = self.mesh_->plane_cell_end(ip) - 1;
                    int in  = n_plane > 1 ? stt : 0;
                    self.alpha_(ig, iang, blitz::Range(stt, stp),
                           (int)Normal::Y_NORM) =
                        inbuf(blitz::Range(in, in + n_cell - 1));
                }
            }
            {
                std::stringstream path;
                path << "/beta/" << std::setw(3) << std::setfill('0') << ig
                     << "/" << std::setw(3) << std::setfill('0') << iang;
                try {
                    h5d.read(path.str(), inbuf);
                } catch (Exception e) {
                    throw EXCEPT("");
                }
                for (int ip = bottom_plane; ip <= top_plane; ip++) {
                    int stt = self.mesh_->plane_cell_begin(ip);
                    int stp = self.mesh_->plane_cell_end(ip) - 1;
                    int in  = n_plane > 1 ? stt : 0;
                    self.beta_(ig, iang, blitz::Range(stt, stp)) =
                        inbuf(blitz::Range(in, in + n_cell - 1));
                }
            }
        }
    }
    return;
}

void CorrectionData__from_data(CorrectionData &self, const pugi::xml_node &input)
{
    if (input.child("data").empty()) {
        return;
    }
    int np = self.mesh_->macroplanes().size();
    int n_data = 0;
    for (const auto &d : input.children("data")) {
        n_data++;
    }
    bool single_file = false;
    if (n_data == 1) {
        H5Node h5d(input.child("data").attribute("file").value(),
                   H5Access::READ);
        auto dims = h5d.dimensions("alpha_x/000/000");
        if ((dims.size() == 3) && (dims[2] == self.mesh_->nx()) && (dims[1] == self.mesh_->ny()) &&
            ((int)dims[0] == np)) {
            single_file = true;
        }
    }
    if (single_file) {
        self.read_data_single(input.child("data"));
    } else {
        self.read_data_multi(input);
    }
    return;
}

void CorrectionData__read_data_multi(CorrectionData &self, const pugi::xml_node &input)
{
    int np = self.mesh_->macroplanes().size();
    {
        std::vector<bool> plane_data(np, false);
        for (auto data = input.child("data"); data;
             data      = data.next_sibling("data")) {
            int top_plane = np - 1;
            int bot_plane = 0;
            if (!data.attribute("top_plane").empty()) {
                top_plane = data.attribute("top_plane").as_int();
            }
            if (!data.attribute("bottom_plane").empty()) {
                bot_plane = data.attribute("bottom_plane").as_int();
            }
            if ((bot_plane < 0) || (bot_plane >= np)) {
                throw EXCEPT("");
            }
            if ((top_plane < 0) || (top_plane >= np)) {
                throw EXCEPT("");
            }
            if (bot_plane > top_plane) {
                throw EXCEPT("");
            }
            if (data.attribute("file").empty()) {
                throw EXCEPT("");
            }
            for (int ip = bot_plane; ip <= top_plane; ip++) {
                if (plane_data[ip]) {
                    throw EXCEPT("");
                }
                plane_data[ip] = true;
            }
        }
    }
    ArrayB1 slice(self.mesh_->n_cell_plane());
    for (auto data = input.child("data"); data;
         data      = data.next_sibling("data")) {
        int top_plane = np - 1;
        int bot_plane = 0;
        if (!data.attribute("top_plane").empty()) {
            top_plane = data.attribute("top_plane").as_int();
        }
        if (!data.attribute("bottom_plane").empty()) {
            bot_plane = data.attribute("bottom_plane").as_int();
        }
        self.read_data_single(data, bot_plane, top_plane);
    }
    return;
}

void XSMeshHomogenized__output(const XSMeshHomogenized &self, H5Node &file)
{
    auto xsm_g = file.create_group("xsmesh");
    xsm_g.create_group("xstr");
    xsm_g.create_group("xsnf");
    xsm_g.create_group("xsf");
    xsm_g.create_group("xsch");
    xsm_g.write("eubounds", self.eubounds_, VecI(1, self.ng_));
    auto d = self.mesh_.dimensions();
    std::reverse(d.begin(), d.end());
    d.front()     = self.mesh_.macroplanes().size();
    int per_plane = d[1] * d[2];
    for (size_t ig = 0; ig < self.ng_; ig++) {
        VecF xstr(self.size(), 0.0);
        VecF xsnf(self.size(), 0.0);
        VecF xsf(self.size(), 0.0);
        VecF xsch(self.size(), 0.0);
        int i = 0;
        for (auto xsr : self.regions_) {
            Position pos = self.mesh_.pin_position(i);
            pos.z        = i / per_plane;
            int icell    = self.mesh_.coarse_cell(pos);
            xstr[icell]  = xsr.xsmactr(ig);
            xsnf[icell]  = xsr.xsmacnf(ig);
            xsf[icell]   = xsr.xsmacf(ig);
            xsch[icell]  = xsr.xsmacch(ig);
            i++;
        }
        {
            std::stringstream setname;
            setname << "xstr/" << ig;
            xsm_g.write(setname.str(), xstr, d);
        }
        {
            std::stringstream setname;
            setname << "xsnf/" << ig;
            xsm_g.write(setname.str(), xsnf, d);
        }
        {
            std::stringstream setname;
            setname << "xsch/" << ig;
            xsm_g.write(setname.str(), xsch, d);
        }
        {
            std::stringstream setname;
            setname << "xsf/" << ig;
            xsm_g.write(setname.str(), xsf, d);
        }
    }
    VecF scat(self.regions_.size() * self.ng_ * self.ng_, 0.0);
    auto it = scat.begin();
    for (const auto &reg : self.regions_) {
        auto reg_scat = reg.xsmacsc().as_vector();
        it            = std::copy(reg_scat.begin(), reg_scat.end(), it);
    }
    VecI dims(3);
    dims[0] = self.regions_.size();
    dims[1] = self.ng_;
    dims[2] = self.ng_;
    xsm_g.write("xssc", scat, dims);
    return;
}

void XSMeshHomogenized__read_data_single(XSMeshHomogenized &self, const pugi::xml_node &data)
{
    {
        int bot_plane = 0;
        int top_plane = self.mesh_.macroplanes().size() - 1;
        if (!data.attribute("top_plane").empty()) {
            top_plane = data.attribute("top_plane").as_int(-1);
        }
        if (!data.attribute("bottom_plane").empty()) {
            bot_plane = data.attribute("bottom_plane").as_int(-1);
        }
        if ((bot_plane != 0) ||
            (top_plane != (int)self.mesh_.macroplanes().size() - 1)) {
            throw EXCEPT("");
        }
    }
    H5Node h5d(data.attribute("file").value(), H5Access::READ);
    ArrayB1 tr_buf(self.regions_.size());
    ArrayB1 nf_buf(self.regions_.size());
    ArrayB1 ch_buf(self.regions_.size());
    ArrayB1 kf_buf(self.regions_.size());
    for (int ig = 0; ig < (int)self.ng_; ig++) {
        {
            std::stringstream path;
            path << "/xsmesh/xstr/" << ig;
            try {
                h5d.read(path.str(), tr_buf);
            } catch (Exception e) {
                throw EXCEPT("");
            }
        }
        {
            std::stringstream path;
            path << "/xsmesh/xsnf/" << ig;
            try {
                h5d.read(path.str(), nf_buf);
            } catch (Exception e) {
                throw EXCEPT("");
            }
        }
        {
            std::stringstream path;
            path << "/xsmesh/xsch/" << ig;
            try {
                h5d.read(path.str(), ch_buf);
            } catch (Exception e) {
                throw EXCEPT("");
            }
        }
        {
            std::stringstream path;
            path << "/xsmesh/xsf/" << ig;
            try {
                h5d.read(path.str(), kf_buf);
            } catch (Exception e) {
                throw EXCEPT("");
            }
        }
        int ipin            = 0;
        unsigned nreg_plane = self.mesh_.nx() * self.mesh_.ny();
        for (unsigned iplane = 0; iplane < self.mesh_.macroplanes().size();
             iplane++) {
            for (unsigned i_in = 0; i_in < nreg_plane; i_in++) {
                Position pos = self.mesh_.pin_position(ipin);
                pos.z        = iplane;
                int icell    = self.mesh_.coarse_cell(pos);
                self.xstr_(ipin, ig) = tr_buf(icell);
                self.xsnf_(ipin, ig) = nf_buf(icell);
                self.xsch_(ipin, ig) = ch_buf(icell);
                self.xsf_(ipin, ig)  = kf_buf(icell);
                ipin++;
            }
        }
    } 
    ArrayB3 scat;
    try {
        h5d.read("/xsmesh/xssc", scat);
    } catch (Exception e) {
        throw EXCEPT("");
    }
    if ((scat.shape()[0] != (int)self.regions_.size()) ||
        (scat.shape()[1] != (int)self.ng_) || (scat.shape()[2] != (int)self.ng_)) {
        throw EXCEPT("");
    }
    for (int ixsreg = 0; ixsreg < (int)self.regions_.size(); ixsreg++) {
        ScatteringMatrix xssc(
            scat(ixsreg, blitz::Range::all(), blitz::Range::all()));
        self.regions_[ixsreg].xsmacsc_ = xssc;
        self.regions_[ixsreg].update_removal();
    }
    return;
}

void XSMeshHomogenized__read_data_multi(XSMeshHomogenized &self, const pugi::xml_node &input)
{
    int nreg_plane = self.mesh_.nx() * self.mesh_.ny();
    {
        int np = self.mesh_.macroplanes().size();
        std::vector<bool> plane_data(np, false);
        for (const auto &data : input.children("data")) {
            int top_plane = 0;
            int bot_plane = 0;
            if (!data.attribute("top_plane").empty()) {
                top_plane = data.attribute("top_plane").as_int();
            }
            if (!data.attribute("bottom_plane").empty()) {
                bot_plane = data.attribute("bottom_plane").as_int();
            }
            if ((bot_plane < 0) || (bot_plane >= np)) {
                throw EXCEPT("");
            }
            if ((top_plane < 0) || (top_plane >= np)) {
                throw EXCEPT("");
            }
            if (bot_plane > top_plane) {
                throw EXCEPT("");
            }
            if (data.attribute("file").empty()) {
                throw EXCEPT("");
            }
            H5Node h5d(data.attribute("file").value(), H5Access::READ);
            auto dims = h5d.dimensions("/xsmesh/xstr/0");
            if (dims.size() != 3) {
                throw EXCEPT("");
            }
            if (dims[2] != self.mesh_.nx()) {
                throw EXCEPT("");
            }
            if (dims[1] != self.mesh_.ny()) {
                throw EXCEPT("");
            }
            if (dims[0] != 1) {
                throw EXCEPT("");
            }
            for (int ip = bot_plane; ip <= top_plane; ip++) {
                if (plane_data[ip]) {
                    throw EXCEPT("");
                }
                plane_data[ip] = true;
            }
        }
    }
    ArrayB1 tr_buf(nreg_plane);
    ArrayB1 nf_buf(nreg_plane);
    ArrayB1 ch_buf(nreg_plane);
    ArrayB1 kf_buf(nreg_plane);
    for (const auto &data : input.children("data")) {
        int top_plane = 0;
        int bot_plane = 0;
        if (!data.attribute("top_plane").empty()) {
            top_plane = data.attribute("top_plane").as_int();
        }
        if (!data.attribute("bottom_plane").empty()) {
            bot_plane = data.attribute("bottom_plane").as_int();
        }
        H5Node h5d(data.attribute("file").value(), H5Access::READ);
        h5d.read("/xsmesh/eubounds", self.eubounds_);
        for (int ig = 0; ig < (int)self.ng_; ig++) {
            {
                std::stringstream path;
                path << "/xsmesh/xstr/" << ig;
                h5d.read(path.str(), tr_buf);
            }
            {
                std::stringstream path;
                path << "/xsmesh/xsnf/" << ig;
                h5d.read(path.str(), nf_buf);
            }
            {
                std::stringstream path;
                path << "/xsmesh/xsch/" << ig;
                h5d.read(path.str(), ch_buf);
            }
            {
                std::stringstream path;
                path << "/xsmesh/xsf/" << ig;
                h5d.read(path.str(), kf_buf);
            }
            for (int ip = bot_plane; ip <= top_plane; ip++) {
                const MacroPlane &mplane = self.mesh_.macroplanes()[ip];
                for (unsigned ipin = 0; ipin < mplane.size(); ipin++) {
                    int ixsreg   = nreg_plane * ip + ipin;
                    Position pos = self.mesh_.pin_position(ipin);
                    pos.z        = 0;
                    int icell    = self.mesh_.coarse_cell(pos);
                    self.xstr_(ixsreg, ig) = tr_buf(icell);
                    self.xsnf_(ixsreg, ig) = nf_buf(icell);
                    self.xsch_(ixsreg, ig) = ch_buf(icell);
                    self.xsf_(ixsreg, ig)  = kf_buf(icell);
                }
            }
        }
        ArrayB3 scat;
        h5d.read("/xsmesh/xssc", scat);
        if ((scat.shape()[0] != nreg_plane) || (scat.shape()[1] != (int)self.ng_) ||
            (scat.shape()[2] != (int)self.ng_)) {
            throw EXCEPT("");
        }
        for (int ipin = 0; ipin < nreg_plane; ipin++) {
            ScatteringMatrix xssc(
                scat(ipin, blitz::Range::all(), blitz::Range::all()));
            for (int ip = bot_plane; ip <= top_plane; ip++) {
                int ixsreg                = ipin + nreg_plane * ip;
                self.regions_[ixsreg].xsmacsc_ = xssc;
                self.regions_[ixsreg].update_removal();
            }
        }
    } 
    return;
}

void XSMeshHomogenized__ctor(XSMeshHomogenized &self, const CoreMesh &mesh, const pugi::xml_node &input)
{
    if (input.child("data").empty()) {
        throw EXCEPT("");
    }
    int n_data = 0;
    for (const auto &d : input.children("data")) {
        n_data++;
    }
    bool single_compat = false;
    if (n_data == 1) {
        const auto &data = input.child("data");
        H5Node h5d(data.attribute("file").value(), H5Access::READ);
        auto dims = h5d.dimensions("/xsmesh/xstr/0");
        if ((dims.size() == 3) && (dims[2] == self.mesh_.nx()) && (dims[1] == self.mesh_.ny()) &&
            (dims[0] == self.mesh_.macroplanes().size())) {
            single_compat = true;
        }
    }
    if (single_compat) {
        self.read_data_single(input.child("data"));
    } else {
        self.read_data_multi(input);
    }
}

void AngularQuadrature__output(const AngularQuadrature &self, H5Node &node)
{
    VecF alpha;
    alpha.reserve(self.ndir());
    VecF theta;
    theta.reserve(self.ndir());
    VecF ox;
    ox.reserve(self.ndir());
    VecF oy;
    oy.reserve(self.ndir());
    VecF oz;
    oz.reserve(self.ndir());
    VecF w;
    w.reserve(self.ndir());
    for (auto a : self.angles_) {
        alpha.push_back(a.alpha);
        theta.push_back(a.theta);
        ox.push_back(a.ox);
        oy.push_back(a.oy);
        oz.push_back(a.oz);
        w.push_back(a.weight);
    }
    auto g = node.create_group("ang_quad");
    g.write("n_polar", self.n_polar_);
    g.write("n_azimuthal", self.n_azimuthal_);
    g.write("alpha", alpha);
    g.write("theta", theta);
    g.write("omega_x", ox);
    g.write("omega_y", oy);
    g.write("omega_z", oz);
    g.write("weight", w);
    return;
}

void AngularQuadrature__ctor(AngularQuadrature &self, const H5Node &input)
{
    VecF ox;
    VecF oy;
    VecF oz;
    VecF weights;
    VecF alpha;
    VecF theta;
    VecF rsintheta;
    input.read("ang_quad/omega_x", ox);
    input.read("ang_quad/omega_y", oy);
    input.read("ang_quad/omega_z", oz);
    input.read("ang_quad/weight", weights);
    input.read("ang_quad/alpha", alpha);
    input.read("ang_quad/theta", theta);
    input.read("ang_quad/n_azimuthal", self.n_azimuthal_);
    input.read("ang_quad/n_polar", self.n_polar_);
    if ((ox.size() != oy.size()) || (ox.size() != oz.size()) ||
        (ox.size() != weights.size()) || (ox.size() != alpha.size()) ||
        (ox.size() != theta.size())) {
        throw EXCEPT("");
    }
    int size = ox.size();
    if (size % 8 != 0) {
        throw EXCEPT("");
    }
    self.ndir_oct_ = size / 8;
    self.angles_.reserve(size);
    for (int iang = 0; iang < size; iang++) {
        self.angles_.emplace_back(ox[iang], oy[iang], oz[iang], weights[iang]);
        self.angles_.back().theta = theta[iang];
        self.angles_.back().alpha = alpha[iang];
    }
    self.type_ = QuadratureType::IMPORT;
}



unsigned int fn__convert_access(H5Access access)
{
    switch (access) {
    case H5Access::WRITE:
        return H5F_ACC_TRUNC;
    case H5Access::APPEND:
        return H5F_ACC_RDWR;
    default:
        return H5F_ACC_RDONLY;
    }
}

void H5Node__write_int(H5Node &self, std::string path, int data)
{
    hsize_t dims_a[1];
    dims_a[0] = 1;
    try {
        H5::DataSpace space(1, dims_a);
        H5::DataSet dataset =
            self.node_->createDataSet(path, H5::PredType::NATIVE_INT, space);
        dataset.write(&data, H5::PredType::NATIVE_INT);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to write dataset: " << path;
        throw EXCEPT(msg.str().c_str());
    }
    return;
}

void H5Node__write_long(H5Node &self, std::string path, uint64_t data)
{
    hsize_t dims_a[1];
    dims_a[0] = 1;
    try {
        H5::DataSpace space(1, dims_a);
        H5::DataSet dataset =
            self.node_->createDataSet(path, H5::PredType::NATIVE_ULONG, space);
        dataset.write(&data, H5::PredType::NATIVE_ULONG);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to write dataset: " << path;
        throw EXCEPT(msg.str().c_str());
    }
    return;
}

template <class BlitzArray>
void H5Node__write_array(H5Node &self, std::string path, const BlitzArray &data)
{
    if (!data.isStorageContiguous()) {
        throw EXCEPT("Blitz data is not contiguous.");
    }
    int ndim = data.dimensions();
    std::vector<hsize_t> dims;
    size_t size = 1;
    for (int i = 0; i < ndim; i++) {
        dims.push_back(data.extent(i));
        size *= data.extent(i);
    }
    if (data.size() != size) {
        throw EXCEPT(
            "Something fishy is going on with array dimensions.");
    }
    try {
        H5::DataSpace space(dims.size(), dims.data());
        H5::DataSet dataset =
            self.node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
        dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to write dataset: " << path;
        throw EXCEPT(msg.str().c_str());
    }
    return;
}

void H5Node__write_vec(H5Node &self, std::string path, const VecF &data)
{
    hsize_t *dims_a = new hsize_t;
    *dims_a         = data.size();
    try {
        H5::DataSpace space(1, dims_a);
        H5::DataSet dataset =
            self.node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
        dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to write dataset: " << path;
        throw EXCEPT(msg.str().c_str());
    }
    delete dims_a;
    return;
}

void H5Node__write_shape(H5Node &self, std::string path, const VecF &data, VecI dims)
{
    hsize_t *dims_a = new hsize_t[dims.size()];
    int size = 1;
    for (unsigned i = 0; i < dims.size(); i++) {
        dims_a[i] = dims[i];
        size *= dims[i];
    }
    try {
        H5::DataSpace space(dims.size(), dims_a);
        H5::DataSet dataset =
            self.node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
        dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to write dataset: " << path;
        throw EXCEPT(msg.str().c_str());
    }
    delete[] dims_a;
    return;
}

void H5Node__write_b1(H5Node &self, std::string path, const ArrayB1 &data, VecI dims)
{
    if (!data.isStorageContiguous()) {
        throw EXCEPT("Data is not contiguous.");
    }
    std::vector<hsize_t> dims_a;
    dims_a.reserve(dims.size());
    size_t size = 1;
    for (const auto &v : dims) {
        dims_a.push_back(v);
        size *= v;
    }
    if (size != (size_t)data.size()) {
        throw EXCEPT("Dimensions do not match the data: " + path);
    }
    try {
        H5::DataSpace space(dims.size(), dims_a.data());
        H5::DataSet dataset =
            self.node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
        dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to write dataset: " << path;
        throw EXCEPT(msg.str().c_str());
    }
    return;
}

void H5Node__write_text(H5Node &self, std::string path, const std::string &str)
{
    try {
        H5::StrType vlst(0, H5T_VARIABLE);
        H5::DataSpace space(H5S_SCALAR);
        H5::DataSet dataset = self.node_->createDataSet(path, vlst, space);
        H5std_string str_data(str);
        dataset.write(str_data, vlst);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to write string data: " << path;
        throw EXCEPT(msg.str());
    }
}

void H5Node__read_int(const H5Node &self, std::string path, int &data)
{
    H5::DataSet dataset;
    H5::DataSpace dataspace;
    int h5size = -1;
    try {
        dataset   = self.node_->openDataSet(path);
        dataspace = dataset.getSpace();
        h5size    = dataspace.getSimpleExtentNpoints();
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to access dataset: " << path;
        throw EXCEPT(msg.str().c_str());
    }
    if (h5size != 1) {
        throw EXCEPT("Expected a single value: " + path);
    }
    try {
        dataset.read(&data, H5::PredType::NATIVE_INT);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to read dataset: " << path;
        throw EXCEPT(msg.str());
    }
}

template <class BlitzArray>
void H5Node__read_array(const H5Node &self, std::string path, BlitzArray &data)
{
    if ((data.size() > 0) && !data.isStorageContiguous()) {
        throw EXCEPT("Blitz data is not contiguous");
    }
    H5::DataSet dataset;
    H5::DataSpace dataspace;
    int ndim   = -1;
    int h5size = -1;
    std::vector<hsize_t> dims;
    try {
        dataset   = self.node_->openDataSet(path);
        dataspace = dataset.getSpace();
        ndim      = dataspace.getSimpleExtentNdims();
        h5size    = dataspace.getSimpleExtentNpoints();
        dims.resize(ndim);
        dataspace.getSimpleExtentDims(dims.data());
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to access dataset: " << path;
        throw EXCEPT(msg.str().c_str());
    }
    auto shape = data.shape();
    auto size  = data.size();
    if (size == 0) {
        if (data.dimensions() == 1) {
            data.resize(h5size);
        } else {
            if (data.dimensions() != ndim) {
                throw EXCEPT(
                    "Array and dataset dimensionality disagree.");
            }
            for (int i = 0; i < ndim; i++) {
                shape[i] = dims[i];
            }
            data.resize(shape);
        }
    } else {
        if (data.dimensions() == 1) {
            if ((int)data.size() != h5size) {
                std::cerr << data.size() << " " << h5size << std::endl;
                throw EXCEPT("Incorrect array size.");
            }
        } else {
            if (data.dimensions() != ndim) {
                throw EXCEPT(
                    "Array and dataset dimensionality disagree.");
            }
            for (int i = 0; i < ndim; i++) {
                if (shape[i] != (int)dims[i]) {
                    throw EXCEPT("Incorrect array shape.");
                }
            }
        }
    }
    try {
        dataset.read(data.data(), H5::PredType::NATIVE_DOUBLE);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to read dataset: " << path;
        throw EXCEPT(msg.str());
    }
    return;
}

void H5Node__read_vec(const H5Node &self, std::string path, std::vector<double> &data)
{
    H5::DataSet dataset;
    H5::DataSpace dataspace;
    int h5size = -1;
    int ndim   = -1;
    try {
        dataset   = self.node_->openDataSet(path);
        dataspace = dataset.getSpace();
        ndim      = dataspace.getSimpleExtentNdims();
        h5size    = dataspace.getSimpleExtentNpoints();
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to access dataset: " << path;
        throw EXCEPT(msg.str());
    }
    if (ndim != 1) {
        throw EXCEPT("Vector input only supports single-dimensional data");
    }
    if (data.size() == 0) {
        data.resize(h5size);
    } else {
        if ((int)data.size() != h5size) {
            throw EXCEPT("Incompatible data sizes");
        }
    }
    try {
        dataset.read(data.data(), H5::PredType::NATIVE_DOUBLE);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to read dataset: " << path;
        throw EXCEPT(msg.str());
    }
    return;
}

void H5Node__read_1d(const H5Node &self, std::string path, ArrayB1 &data)
{
    H5::DataSet dataset;
    H5::DataSpace dataspace;
    int h5size = -1;
    try {
        dataset   = self.node_->openDataSet(path);
        dataspace = dataset.getSpace();
        h5size    = dataspace.getSimpleExtentNpoints();
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to access dataset: " << path;
        throw EXCEPT(msg.str());
    }
    if (data.size() == 0) {
        data.resize(h5size);
    } else {
        if ((int)data.size() != h5size) {
            std::cerr << data.size() << " " << h5size << std::endl;
            throw EXCEPT("Incompatible data sizes");
        }
    }
    try {
        dataset.read(data.data(), H5::PredType::NATIVE_DOUBLE);
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to read dataset: " << path;
        throw EXCEPT(msg.str());
    }
    return;
}

std::vector<hsize_t> H5Node__dimensions(H5Node &self, std::string path)
{
    try {
        H5::DataSet dataset     = self.node_->openDataSet(path);
        H5::DataSpace dataspace = dataset.getSpace();
        size_t ndim             = dataspace.getSimpleExtentNdims();
        std::vector<hsize_t> dims(ndim);
        dataspace.getSimpleExtentDims(dims.data());
        return dims;
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to get dataset dimensions: " << path;
        throw EXCEPT(msg.str());
    }
}

H5Node H5Node__create_group(H5Node &self, std::string path)
{
    if (self.access_ != H5Access::READ) {
        std::shared_ptr<H5::CommonFG> sp;
        try {
            H5::Group *g = new H5::Group();
            *g           = self.node_->createGroup(path.c_str());
            sp.reset(g);
        } catch (...) {
            std::stringstream msg;
            msg << "Failed to create group '" << path << "'";
            throw EXCEPT(msg.str())
        }
        return H5Node(sp, self.access_);
    } else {
        throw EXCEPT("No write permissions");
    }
}

void H5Node__create_link(H5Node &self, std::string source, std::string destination, H5Link type)
{
    try {
        switch (type) {
        case H5Link::HARD:
            self.node_->link(H5G_LINK_HARD, source.c_str(), destination.c_str());
            break;
        case H5Link::SOFT:
            self.node_->link(H5G_LINK_SOFT, source.c_str(), destination.c_str());
            break;
        }
    } catch (...) {
        throw EXCEPT("Failed to create link");
    }
    return;
}

void H5Node__ctor(H5Node &self, const char *filename, H5Access access)
{
    self.access_ = access;
    try {
        self.file_.reset(new H5::H5File(filename, fn__convert_access(access)));
    } catch (...) {
        std::stringstream msg;
        msg << "Failed to open file '" << filename << "'";
        throw EXCEPT(msg.str());
    }
    self.node_ = self.file_;
}

void H5Node__write_b1_all(H5Node &self, std::string path, const ArrayB1 &data)
{
    H5Node__write_array(self, path, data);
}

void H5Node__read_b1_all(const H5Node &self, std::string path, ArrayB1 &data)
{
    H5Node__read_array(self, path, data);
}

void H5Node__write_b2_all(H5Node &self, std::string path, const ArrayB2 &data)
{
    H5Node__write_array(self, path, data);
}

void H5Node__read_b2_all(const H5Node &self, std::string path, ArrayB2 &data)
{
    H5Node__read_array(self, path, data);
}

void H5Node__write_b3_all(H5Node &self, std::string path, const ArrayB3 &data)
{
    H5Node__write_array(self, path, data);
}

void H5Node__read_b3_all(const H5Node &self, std::string path, ArrayB3 &data)
{
    H5Node__read_array(self, path, data);
}



H5Node H5Node__at(H5Node &self, std::string path)
{
    std::shared_ptr<H5::CommonFG> g;
    try {
        g.reset(new H5::Group(self.node_->openGroup(path)));
    } catch (...) {
        throw EXCEPT("Failed to open group '" + path + "'");
    }
    return H5Node(g, self.access_);
}

template <class InputIterator>
InputIterator H5Node__write_some(H5Node &self, std::string path, InputIterator first, InputIterator last, VecI dims)
{
    std::vector<hsize_t> dims_a;
    int n = 1;
    for (auto di : dims) {
        n *= di;
        dims_a.push_back(di);
    }
    VecF d(first, last);
    if ((int)d.size() != n) {
        throw EXCEPT("Dimensions do not match the data: " + path);
    }
    try {
        H5::DataSpace space(dims.size(), dims_a.data());
        H5::DataSet dataset = self.node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
        dataset.write(d.data(), H5::PredType::NATIVE_DOUBLE);
    } catch (...) {
        throw EXCEPT("Failed to write dataset: " + path);
    }
    return last;
}

typedef blitz::ConstArrayIterator<double, 1> Reader;
typedef blitz::ArrayIterator<double, 1> Writer;

Reader H5Node__write_range(H5Node &self, std::string path, Reader first, Reader last, VecI dims)
{
    return H5Node__write_some(self, path, first, last, dims);
}

Writer H5Node__write_range_w(H5Node &self, std::string path, Writer first, Writer last, VecI dims)
{
    return H5Node__write_some(self, path, first, last, dims);
}

} // namespace ref
