// Examples the initialisation and lifetime rules are tried on: those called
// bad (or in a class called Bad) must be reported and no others.
#include <memory>
#include <vector>
#include "core/mesh.hpp"
#include "common.hpp"

namespace ref {
namespace unset {
int bad_branch(bool b)
{
    int x;
    if (b) {
        x = 1;
    }
    return x;
}
int bad_loop(int n)
{
    int x;
    for (int i = 0; i < n; i++) {
        x = i;
    }
    return x;
}
int bad_case(int n)
{
    int x;
    switch (n) {
    case 0:
        x = 1;
        break;
    case 1:
        break;
    default:
        x = 2;
    }
    return x;
}
int fine_branch(bool b)
{
    int x;
    if (b) {
        x = 1;
    }
    else {
        throw 1;
    }
    return x;
}
void give(int &x)
{
    x = 3;
}
void maybe(int &x, bool b)
{
    if (b) {
        x = 3;
    }
}
int fine_given()
{
    int x;
    give(x);
    return x;
}
int bad_given(bool b)
{
    int x;
    maybe(x, b);
    return x;
}
int fine_fixed()
{
    int x;
    for (int i = 0; i < 3; i++) {
        x = i;
    }
    return x;
}
struct Late {
    Late(int n) : n_(n) {}
    void set(int m) { m_ = m; }
    int sum() const { return n_ + m_; }
    int n_;
    int m_;
};
int fine_late()
{
    Late l(1);
    l.set(2);
    return l.sum();
}
int bad_late()
{
    Late l(1);
    return l.sum();
}
int through(Late &l)
{
    return l.sum();
}
int bad_through()
{
    Late l(1);
    return through(l);
}
} // namespace unset

namespace order {
struct Bad {
    Bad(int n) : v_(n_), n_(n) {}
    std::vector<int> v_;
    int n_;
};
struct Fine {
    Fine(int n) : n_(n), v_(n_) {}
    int n_;
    std::vector<int> v_;
};
} // namespace order

namespace copies {
struct Bad {
    Bad(const Bad &o) : a_(o.a_) {}
    std::vector<int> a_;
    std::vector<int> b_;
};
struct Fine {
    Fine(const Fine &o) : a_(o.a_) { b_ = o.b_; }
    std::vector<int> a_;
    std::vector<int> b_;
};
} // namespace copies

namespace kept {
struct Keep {
    Keep(const std::vector<int> &v) : v_(v) {}
    const std::vector<int> &v_;
};
struct Bad {
    Bad(std::vector<int> v) : v_(v) {}
    const std::vector<int> &v_;
};
std::shared_ptr<Keep> bad_made()
{
    std::vector<int> v(3);
    return std::shared_ptr<Keep>(new Keep(v));
}
int fine_local()
{
    std::vector<int> v(3);
    Keep k(v);
    return k.v_[0];
}
} // namespace kept

namespace returns {
const std::vector<int> &bad_local()
{
    std::vector<int> v(3);
    return v;
}
const std::vector<int> &fine_static()
{
    static std::vector<int> v(3);
    return v;
}
} // namespace returns

namespace owned {
int bad_leak(bool b)
{
    int *p = new int[3];
    if (b) {
        return 0;
    }
    delete[] p;
    return 1;
}
int bad_twice(bool b)
{
    int *p = new int[3];
    if (b) {
        delete[] p;
    }
    delete[] p;
    return 1;
}
int fine_once(int n)
{
    int *p = new int[3];
    int r  = p[0] + n;
    delete[] p;
    return r;
}
std::unique_ptr<int> fine_wrapped()
{
    return std::unique_ptr<int>(new int(3));
}
} // namespace owned

namespace moved {
std::vector<int *> bad_grown(std::vector<int> &v)
{
    std::vector<int *> out;
    for (int i = 0; i < 3; i++) {
        v.push_back(i);
        out.push_back(&v[i]);
    }
    return out;
}
std::vector<int *> fine_room(std::vector<int> &v)
{
    std::vector<int *> out;
    v.reserve(3);
    for (int i = 0; i < 3; i++) {
        v.push_back(i);
        out.push_back(&v[i]);
    }
    return out;
}
} // namespace moved
} // namespace ref
