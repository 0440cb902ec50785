#include "util/error.hpp"
#include "util/string_utils.hpp"
#include "util/file_scrubber.hpp"
#include "util/range.hpp"
#include "core/material_lib.hpp"
#include "common.hpp"
#include <ctype.h>
#include <regex>
#include <sstream>
#include <fstream>

namespace ref {
std::string fn__print_range(const std::vector<bool> &input)
{
    std::stringstream output;
    bool left      = false;
    int left_bound = 0;
    std::vector<std::pair<int, int>> ranges;
    for (int i = 0; i < (int)input.size(); i++) {
        if (input[i] && !left) {
            left       = true;
            left_bound = i;
        }
        if (left && !input[i]) {
            left = false;
            ranges.emplace_back(left_bound, i - 1);
        }
        if (left && input[i] && i == (int)input.size() - 1) {
            ranges.emplace_back(left_bound, i);
        }
    }
    for (auto r : ranges) {
        if (r.first != r.second) {
            output << r.first << "-" << r.second;
        } else {
            output << r.first;
        }
        if (r != ranges.back()) {
            output << ", ";
        }
    }
    return output.str();
}

template <typename T> inline std::vector<T> explode(std::string data)
{
    sanitize(data);
    if (data.size() == 0) {
        return std::vector<T>();
    }
    std::vector<T> out;
    std::stringstream in(data);
    T i;
    while (!in.eof()) {
        in >> i;
        if (in.fail()) {
            throw EXCEPT("");
        }
        out.push_back(i);
    }
    if (in.fail()) {
        throw EXCEPT("");
    }
    return out;
}
std::vector<int> fn__explode_int(std::string data)
{
    return explode<int>(data);
}

std::vector<real_t> fn__explode_real(std::string data)
{
    return explode<real_t>(data);
}

std::vector<std::vector<int>> fn__explode_braces(std::string data)
{
    auto bad = [](char c) { return !(isspace(c) || isdigit(c) || c == '{' || c == '}'); };
    if (std::find_if(data.begin(), data.end(), bad) != data.end()) {
        throw EXCEPT("");
    }
    int depth = 0;
    for (const auto &c : data) {
        if (c == '{') {
            depth++;
            if (depth > 1) {
                break;
            }
            continue;
        }
        if (c == '}') {
            depth--;
            continue;
        }
    }
    if (depth != 0) {
        throw EXCEPT("");
    }
    std::vector<std::vector<int>> out;
    size_t pos_stt = 0;
    size_t pos_stp = 0;
    size_t pos     = 0;
    while (true) {
        pos_stt = data.find('{', pos);
        pos_stp = data.find('}', pos_stt);
        if (pos_stt - pos > 0) {
            std::vector<int> bare = explode_string<int>(data.substr(pos, pos_stt - pos));
            if (bare.size() > 0) {
                for (const auto &v : bare) {
                    out.push_back(std::vector<int>(1, v));
                }
            }
        }
        if (pos_stt != std::string::npos) {
            out.push_back(explode_string<int>(data.substr(pos_stt + 1, pos_stp - pos_stt - 1)));
            if (out.back().size() == 0) {
                throw EXCEPT("");
            }
        } else {
            break;
        }
        pos = pos_stp + 1;
    }
    return out;
}

std::string &fn__ltrim(std::string &s, const char *t)
{
    s.erase(0, s.find_first_not_of(t));
    return s;
}

std::string &fn__rtrim(std::string &s, const char *t)
{
    s.erase(s.find_last_not_of(t) + 1);
    return s;
}

std::string &fn__trim(std::string &s, const char *t)
{
    return ltrim(rtrim(s, t), t);
}

std::string &fn__sanitize(std::string &s)
{
    std::transform(s.begin(), s.end(), s.begin(), ::tolower);
    return trim(s);
}

void FileScrubber__ctor(FileScrubber &self, const char *name, const char *flag)
{
    self.stream_ = std::ifstream(name);
    self.flag_   = flag;
    if (!self.stream_.good()) {
        throw EXCEPT("");
    }
}

std::string FileScrubber__getline(FileScrubber &self)
{
    while (!self.stream_.eof()) {
        std::string line;
        std::getline(self.stream_, line);
        size_t at = line.find(self.flag_, 0);
        if (at != std::string::npos) {
            line.erase(at, std::string::npos);
        }
        line = trim(line);
        if (!line.empty()) {
            return line;
        }
    }
    return "";
}

void MaterialLib__assignID(MaterialLib &self, int id, std::string name)
{
    if (self.material_ids_.find(id) != self.material_ids_.end()) {
        throw EXCEPT("");
    }
    try {
        int mat_index = self.material_names_.at(name);
        self.assigned_materials_.push_back(self.lib_materials_[mat_index]);
        self.material_dense_index_[id] = self.n_material_;
        self.material_ids_[id]         = mat_index;
        self.n_material_++;
    } catch (std::out_of_range) {
        throw EXCEPT("");
    }
}

void read_library(MaterialLib &self, FileScrubber &input, bool strict)
{
    std::string line;
    input.getline();
    std::stringstream head(input.getline());
    head >> self.n_grp_;
    if (head.fail() || (self.n_grp_ == 0)) {
        throw EXCEPT("");
    }
    head >> self.n_material_lib_;
    if (head.fail()) {
        throw EXCEPT("");
    }
    std::stringstream bounds(input.getline());
    for (size_t i = 0; i < self.n_grp_; i++) {
        double bound;
        bounds >> bound;
        self.g_bounds_.push_back(bound);
        if (bounds.fail()) {
            throw EXCEPT("");
        }
    }
    for (size_t imat = 0; imat < self.n_material_lib_; imat++) {
        line = input.getline();
        std::regex exp("^\\s*XSMACRO\\s+([^\\s]+)\\s+([0-9]+)\\s*$");
        std::smatch results;
        if (!std::regex_match(line, results, exp)) {
            throw EXCEPT("");
        }
        std::string name = results[1].str();
        if (strict) {
            VecF abs(self.n_grp_, 0.0);
            VecF nufiss(self.n_grp_, 0.0);
            VecF fiss(self.n_grp_, 0.0);
            VecF chi(self.n_grp_, 0.0);
            for (size_t ig = 0; ig < self.n_grp_; ig++) {
                std::stringstream in(input.getline());
                VecF xs = explode_string<real_t>(in.str());
                if (xs.size() != 4) {
                    throw EXCEPT("");
                }
                abs[ig]    = xs[0];
                nufiss[ig] = xs[1];
                fiss[ig]   = xs[2];
                chi[ig]    = xs[3];
            }
            std::vector<VecF> scat;
            for (size_t ig = 0; ig < self.n_grp_; ig++) {
                std::stringstream in(input.getline());
                VecF row = explode_string<real_t>(in.str());
                if (row.size() != self.n_grp_) {
                    throw EXCEPT("");
                }
                scat.push_back(row);
            }
            self.lib_materials_.push_back(Material(abs, nufiss, fiss, chi, scat));
        } else {
            VecF abs;
            VecF nufiss;
            VecF fiss;
            VecF chi;
            for (size_t ig = 0; ig < self.n_grp_; ig++) {
                std::stringstream in(input.getline());
                double val;
                in >> val;
                abs.push_back(val);
                in >> val;
                nufiss.push_back(val);
                in >> val;
                fiss.push_back(val);
                in >> val;
                chi.push_back(val);
                if (in.fail()) {
                    throw EXCEPT("");
                }
            }
            std::vector<VecF> scat;
            for (size_t ig = 0; ig < self.n_grp_; ig++) {
                std::stringstream in(input.getline());
                VecF row;
                for (size_t igg = 0; igg < self.n_grp_; igg++) {
                    double val;
                    in >> val;
                    row.push_back(val);
                }
                if (in.fail()) {
                    throw EXCEPT("");
                }
                scat.push_back(row);
            }
            self.lib_materials_.push_back(Material(abs, nufiss, fiss, chi, scat));
        }
        if (!self.material_names_.emplace(name, imat).second) {
            throw EXCEPT("");
        }
    }
}

void MaterialLib__ctor_xml(MaterialLib &self, const pugi::xml_node &input)
{
    self.n_material_ = 0;
    if (input.empty()) {
        throw EXCEPT("");
    }
    std::string path = input.attribute("path").value();
    FileScrubber file;
    try {
        file = FileScrubber(path.c_str(), "!");
    } catch (Exception e) {
        throw EXCEPT("");
    }
    read_library(self, file, true);
    for (auto mat = input.child("material"); mat; mat = mat.next_sibling("material")) {
        if (mat.attribute("id").as_int(0) == 0) {
            throw EXCEPT("");
        }
        self.assignID(mat.attribute("id").as_int(), mat.attribute("name").value());
    }
}

void MaterialLib__ctor_file(MaterialLib &self, FileScrubber &input)
{
    self.n_material_ = 0;
    read_library(self, input, false);
}
} // namespace ref
