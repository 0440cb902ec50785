// Small parallel regions, with races and without, that the rules of C22 and C23 are tried on before they are believed.
#include "core/boundary_condition.hpp"
#include "common.hpp"
#include <vector>

namespace ref {
struct Shared {
    std::vector<double> a, b;
    double sum;
    int n;
    bool flag;

    // every thread adds to one number
    void racy_sum()
    {
#pragma omp parallel
        {
#pragma omp for
            for (int i = 0; i < n; i++) {
                sum += a[i];
            }
        }
    }

    // neighbours are read while they are written
    void racy_stencil()
    {
#pragma omp parallel
        {
#pragma omp for
            for (int i = 0; i < n; i++) {
                a[i] = a[i + 1];
            }
        }
    }

    // no barrier between the reduction and its use
    void racy_phase()
    {
#pragma omp parallel
        {
            double t = 0.0;
#pragma omp for
            for (int i = 0; i < n; i++) {
                t += a[i];
            }
#pragma omp critical
            {
                sum += t;
            }
            b[0] = sum;
        }
    }

    // the barrier at the end of the loop is waived
    void racy_nowait()
    {
#pragma omp parallel
        {
#pragma omp for nowait
            for (int i = 0; i < n; i++) {
                a[i] = b[i];
            }
#pragma omp for
            for (int i = 0; i < n; i++) {
                b[i] = a[n - i];
            }
        }
    }

    // one thread starts over while another still reads
    void racy_wrap()
    {
#pragma omp parallel
        {
            for (int k = 0; k < n; k++) {
#pragma omp single
                {
                    sum = k;
                }
                double t = sum;
#pragma omp critical
                {
                    a[0] += t;
                }
            }
        }
    }

    void safe_sum()
    {
#pragma omp parallel
        {
            double t = 0.0;
#pragma omp for
            for (int i = 0; i < n; i++) {
                t += a[i];
                b[i] = 2.0 * b[i];
            }
#pragma omp critical
            {
                sum += t;
            }
#pragma omp barrier
#pragma omp single
            {
                a[0] = sum;
            }
        }
    }

    void safe_reduction()
    {
        double s = 0.0;
#pragma omp parallel for reduction(+ : s)
        for (int i = 0; i < n; i++) {
            s += a[i];
        }
        sum = s;
    }

    void safe_wrap()
    {
#pragma omp parallel
        {
            for (int k = 0; k < n; k++) {
#pragma omp single
                {
                    sum = k;
                }
                double t = sum;
#pragma omp barrier
#pragma omp critical
                {
                    a[0] += t;
                }
            }
        }
    }

    // for the rules of C23
    void stuck_branch()
    {
#pragma omp parallel
        {
            double t = 0.0;
#pragma omp for
            for (int i = 0; i < n; i++) {
                t += a[i];
            }
            if (t > 0.0) {
#pragma omp barrier
            }
        }
    }

    void stuck_nested()
    {
#pragma omp parallel
        {
#pragma omp critical
            {
                this->wait();
            }
        }
    }

    void wait()
    {
#pragma omp barrier
        n++;
    }

    void stuck_throw()
    {
#pragma omp parallel
        {
            if (n < 0) {
                throw EXCEPT("");
            }
        }
    }
};
} // namespace ref
