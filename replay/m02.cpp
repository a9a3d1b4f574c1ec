#include "common.h"
#include <daisy_rtl/daisy_rtl.h>
#include <type_traits>
using namespace rp;
template<class T> T rv() {
    if constexpr (std::is_floating_point_v<T>) return (T) rr(-40, 40) / 4;
    else if constexpr (std::is_signed_v<T>) return (T) rr(-9, 9);
    else return (T) rr(0, 9);
}
// results of the unary context are compared in the promoted type
template<class A, class B> bool same(A a, B b) { return a == b; }
template<class T> void round(const char* tn) {
    T w = rv<T>();
    T x0 = rv<T>(), y0 = rv<T>(), z0 = rv<T>(), x1 = rv<T>(), y1 = rv<T>(), z1 = rv<T>(), x2 = rv<T>(), y2 = rv<T>(), z2 = rv<T>();
    std::ostringstream o;
    o << tn << " w=" << +w << " " << +x0 << "," << +y0 << "," << +z0 << " " << +x1 << "," << +y1 << "," << +z1 << " " << +x2 << "," << +y2 << "," << +z2;
    at(o.str());
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m; auto got = __daisy_min(x0, x1 * y1); CHECK(same(got, want), "__daisy_min(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m; auto got = __daisy_min(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "__daisy_min(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = m; auto got = __daisy_min(x0 - z0, +x1); CHECK(same(got, want), "__daisy_min(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m; auto got = __daisy_min(x0 * y0, x1 + y1); CHECK(same(got, want), "__daisy_min(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m; auto got = __daisy_min(-x0, x1 * y1); CHECK(same(got, want), "__daisy_min(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m; auto got = __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "__daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = m; auto got = __daisy_min((T) (x0 == y0), +x1); CHECK(same(got, want), "__daisy_min((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m; auto got = __daisy_min(+x0, x1 + y1); CHECK(same(got, want), "__daisy_min(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = w * m; auto got = w * __daisy_min(x0, x1 * y1); CHECK(same(got, want), "w * __daisy_min(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = w * m; auto got = w * __daisy_min(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "w * __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = w * m; auto got = w * __daisy_min(x0 - z0, +x1); CHECK(same(got, want), "w * __daisy_min(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = w * m; auto got = w * __daisy_min(x0 * y0, x1 + y1); CHECK(same(got, want), "w * __daisy_min(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = w * m; auto got = w * __daisy_min(-x0, x1 * y1); CHECK(same(got, want), "w * __daisy_min(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = w * m; auto got = w * __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "w * __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = w * m; auto got = w * __daisy_min((T) (x0 == y0), +x1); CHECK(same(got, want), "w * __daisy_min((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = w * m; auto got = w * __daisy_min(+x0, x1 + y1); CHECK(same(got, want), "w * __daisy_min(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m * w; auto got = __daisy_min(x0, x1 * y1) * w; CHECK(same(got, want), "__daisy_min(x0, x1 * y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m * w; auto got = __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) * w; CHECK(same(got, want), "__daisy_min(x0 + y0, x1 < y1 ? y1 : z1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = m * w; auto got = __daisy_min(x0 - z0, +x1) * w; CHECK(same(got, want), "__daisy_min(x0 - z0, +x1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m * w; auto got = __daisy_min(x0 * y0, x1 + y1) * w; CHECK(same(got, want), "__daisy_min(x0 * y0, x1 + y1) * w gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m * w; auto got = __daisy_min(-x0, x1 * y1) * w; CHECK(same(got, want), "__daisy_min(-x0, x1 * y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m * w; auto got = __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) * w; CHECK(same(got, want), "__daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) * w gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = m * w; auto got = __daisy_min((T) (x0 == y0), +x1) * w; CHECK(same(got, want), "__daisy_min((T) (x0 == y0), +x1) * w gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m * w; auto got = __daisy_min(+x0, x1 + y1) * w; CHECK(same(got, want), "__daisy_min(+x0, x1 + y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = w - m; auto got = w - __daisy_min(x0, x1 * y1); CHECK(same(got, want), "w - __daisy_min(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = w - m; auto got = w - __daisy_min(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "w - __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = w - m; auto got = w - __daisy_min(x0 - z0, +x1); CHECK(same(got, want), "w - __daisy_min(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = w - m; auto got = w - __daisy_min(x0 * y0, x1 + y1); CHECK(same(got, want), "w - __daisy_min(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = w - m; auto got = w - __daisy_min(-x0, x1 * y1); CHECK(same(got, want), "w - __daisy_min(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = w - m; auto got = w - __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "w - __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = w - m; auto got = w - __daisy_min((T) (x0 == y0), +x1); CHECK(same(got, want), "w - __daisy_min((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = w - m; auto got = w - __daisy_min(+x0, x1 + y1); CHECK(same(got, want), "w - __daisy_min(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = -m; auto got = -__daisy_min(x0, x1 * y1); CHECK(same(got, want), "-__daisy_min(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = -m; auto got = -__daisy_min(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "-__daisy_min(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = -m; auto got = -__daisy_min(x0 - z0, +x1); CHECK(same(got, want), "-__daisy_min(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = -m; auto got = -__daisy_min(x0 * y0, x1 + y1); CHECK(same(got, want), "-__daisy_min(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = -m; auto got = -__daisy_min(-x0, x1 * y1); CHECK(same(got, want), "-__daisy_min(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = -m; auto got = -__daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "-__daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = -m; auto got = -__daisy_min((T) (x0 == y0), +x1); CHECK(same(got, want), "-__daisy_min((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = -m; auto got = -__daisy_min(+x0, x1 + y1); CHECK(same(got, want), "-__daisy_min(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m - w; auto got = __daisy_min(x0, x1 * y1) - w; CHECK(same(got, want), "__daisy_min(x0, x1 * y1) - w gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m - w; auto got = __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) - w; CHECK(same(got, want), "__daisy_min(x0 + y0, x1 < y1 ? y1 : z1) - w gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = m - w; auto got = __daisy_min(x0 - z0, +x1) - w; CHECK(same(got, want), "__daisy_min(x0 - z0, +x1) - w gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m - w; auto got = __daisy_min(x0 * y0, x1 + y1) - w; CHECK(same(got, want), "__daisy_min(x0 * y0, x1 + y1) - w gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m - w; auto got = __daisy_min(-x0, x1 * y1) - w; CHECK(same(got, want), "__daisy_min(-x0, x1 * y1) - w gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m - w; auto got = __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) - w; CHECK(same(got, want), "__daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) - w gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = m - w; auto got = __daisy_min((T) (x0 == y0), +x1) - w; CHECK(same(got, want), "__daisy_min((T) (x0 == y0), +x1) - w gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m - w; auto got = __daisy_min(+x0, x1 + y1) - w; CHECK(same(got, want), "__daisy_min(+x0, x1 + y1) - w gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_min(x0, x1 * y1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_min(x0, x1 * y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_min(x0 - z0, +x1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_min(x0 - z0, +x1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_min(x0 * y0, x1 + y1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_min(x0 * y0, x1 + y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_min(-x0, x1 * y1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_min(-x0, x1 * y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_min((T) (x0 == y0), +x1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_min((T) (x0 == y0), +x1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_min(+x0, x1 + y1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_min(+x0, x1 + y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_min(x0, x1 * y1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_min(x0, x1 * y1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_min(x0 + y0, x1 < y1 ? y1 : z1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_min(x0 - z0, +x1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_min(x0 - z0, +x1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_min(x0 * y0, x1 + y1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_min(x0 * y0, x1 + y1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_min(-x0, x1 * y1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_min(-x0, x1 * y1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_min((T) (x0 == y0), +x1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_min((T) (x0 == y0), +x1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_min(+x0, x1 + y1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_min(+x0, x1 + y1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m; auto got = (T) __daisy_min(x0, x1 * y1); CHECK(same(got, want), "(T) __daisy_min(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m; auto got = (T) __daisy_min(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "(T) __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = m; auto got = (T) __daisy_min(x0 - z0, +x1); CHECK(same(got, want), "(T) __daisy_min(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m; auto got = (T) __daisy_min(x0 * y0, x1 + y1); CHECK(same(got, want), "(T) __daisy_min(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = m; auto got = (T) __daisy_min(-x0, x1 * y1); CHECK(same(got, want), "(T) __daisy_min(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = m; auto got = (T) __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "(T) __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = m; auto got = (T) __daisy_min((T) (x0 == y0), +x1); CHECK(same(got, want), "(T) __daisy_min((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = m; auto got = (T) __daisy_min(+x0, x1 + y1); CHECK(same(got, want), "(T) __daisy_min(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_min(x0, x1 * y1) ? w : w + 1; CHECK(same(got, want), "!__daisy_min(x0, x1 * y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_min(x0 + y0, x1 < y1 ? y1 : z1) ? w : w + 1; CHECK(same(got, want), "!__daisy_min(x0 + y0, x1 < y1 ? y1 : z1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_min(x0 - z0, +x1) ? w : w + 1; CHECK(same(got, want), "!__daisy_min(x0 - z0, +x1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_min(x0 * y0, x1 + y1) ? w : w + 1; CHECK(same(got, want), "!__daisy_min(x0 * y0, x1 + y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_min(-x0, x1 * y1) ? w : w + 1; CHECK(same(got, want), "!__daisy_min(-x0, x1 * y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) ? w : w + 1; CHECK(same(got, want), "!__daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_min((T) (x0 == y0), +x1) ? w : w + 1; CHECK(same(got, want), "!__daisy_min((T) (x0 == y0), +x1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_min(+x0, x1 + y1) ? w : w + 1; CHECK(same(got, want), "!__daisy_min(+x0, x1 + y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = w + m * w; auto got = w + __daisy_min(x0, x1 * y1) * w; CHECK(same(got, want), "w + __daisy_min(x0, x1 * y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = w + m * w; auto got = w + __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) * w; CHECK(same(got, want), "w + __daisy_min(x0 + y0, x1 < y1 ? y1 : z1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a < b ? a : b; auto want = w + m * w; auto got = w + __daisy_min(x0 - z0, +x1) * w; CHECK(same(got, want), "w + __daisy_min(x0 - z0, +x1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = w + m * w; auto got = w + __daisy_min(x0 * y0, x1 + y1) * w; CHECK(same(got, want), "w + __daisy_min(x0 * y0, x1 + y1) * w gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a < b ? a : b; auto want = w + m * w; auto got = w + __daisy_min(-x0, x1 * y1) * w; CHECK(same(got, want), "w + __daisy_min(-x0, x1 * y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a < b ? a : b; auto want = w + m * w; auto got = w + __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) * w; CHECK(same(got, want), "w + __daisy_min(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) * w gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a < b ? a : b; auto want = w + m * w; auto got = w + __daisy_min((T) (x0 == y0), +x1) * w; CHECK(same(got, want), "w + __daisy_min((T) (x0 == y0), +x1) * w gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a < b ? a : b; auto want = w + m * w; auto got = w + __daisy_min(+x0, x1 + y1) * w; CHECK(same(got, want), "w + __daisy_min(+x0, x1 + y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m; auto got = __daisy_max(x0, x1 * y1); CHECK(same(got, want), "__daisy_max(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m; auto got = __daisy_max(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "__daisy_max(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = m; auto got = __daisy_max(x0 - z0, +x1); CHECK(same(got, want), "__daisy_max(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m; auto got = __daisy_max(x0 * y0, x1 + y1); CHECK(same(got, want), "__daisy_max(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m; auto got = __daisy_max(-x0, x1 * y1); CHECK(same(got, want), "__daisy_max(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m; auto got = __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "__daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = m; auto got = __daisy_max((T) (x0 == y0), +x1); CHECK(same(got, want), "__daisy_max((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m; auto got = __daisy_max(+x0, x1 + y1); CHECK(same(got, want), "__daisy_max(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = w * m; auto got = w * __daisy_max(x0, x1 * y1); CHECK(same(got, want), "w * __daisy_max(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = w * m; auto got = w * __daisy_max(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "w * __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = w * m; auto got = w * __daisy_max(x0 - z0, +x1); CHECK(same(got, want), "w * __daisy_max(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = w * m; auto got = w * __daisy_max(x0 * y0, x1 + y1); CHECK(same(got, want), "w * __daisy_max(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = w * m; auto got = w * __daisy_max(-x0, x1 * y1); CHECK(same(got, want), "w * __daisy_max(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = w * m; auto got = w * __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "w * __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = w * m; auto got = w * __daisy_max((T) (x0 == y0), +x1); CHECK(same(got, want), "w * __daisy_max((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = w * m; auto got = w * __daisy_max(+x0, x1 + y1); CHECK(same(got, want), "w * __daisy_max(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m * w; auto got = __daisy_max(x0, x1 * y1) * w; CHECK(same(got, want), "__daisy_max(x0, x1 * y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m * w; auto got = __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) * w; CHECK(same(got, want), "__daisy_max(x0 + y0, x1 < y1 ? y1 : z1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = m * w; auto got = __daisy_max(x0 - z0, +x1) * w; CHECK(same(got, want), "__daisy_max(x0 - z0, +x1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m * w; auto got = __daisy_max(x0 * y0, x1 + y1) * w; CHECK(same(got, want), "__daisy_max(x0 * y0, x1 + y1) * w gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m * w; auto got = __daisy_max(-x0, x1 * y1) * w; CHECK(same(got, want), "__daisy_max(-x0, x1 * y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m * w; auto got = __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) * w; CHECK(same(got, want), "__daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) * w gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = m * w; auto got = __daisy_max((T) (x0 == y0), +x1) * w; CHECK(same(got, want), "__daisy_max((T) (x0 == y0), +x1) * w gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m * w; auto got = __daisy_max(+x0, x1 + y1) * w; CHECK(same(got, want), "__daisy_max(+x0, x1 + y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = w - m; auto got = w - __daisy_max(x0, x1 * y1); CHECK(same(got, want), "w - __daisy_max(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = w - m; auto got = w - __daisy_max(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "w - __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = w - m; auto got = w - __daisy_max(x0 - z0, +x1); CHECK(same(got, want), "w - __daisy_max(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = w - m; auto got = w - __daisy_max(x0 * y0, x1 + y1); CHECK(same(got, want), "w - __daisy_max(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = w - m; auto got = w - __daisy_max(-x0, x1 * y1); CHECK(same(got, want), "w - __daisy_max(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = w - m; auto got = w - __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "w - __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = w - m; auto got = w - __daisy_max((T) (x0 == y0), +x1); CHECK(same(got, want), "w - __daisy_max((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = w - m; auto got = w - __daisy_max(+x0, x1 + y1); CHECK(same(got, want), "w - __daisy_max(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = -m; auto got = -__daisy_max(x0, x1 * y1); CHECK(same(got, want), "-__daisy_max(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = -m; auto got = -__daisy_max(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "-__daisy_max(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = -m; auto got = -__daisy_max(x0 - z0, +x1); CHECK(same(got, want), "-__daisy_max(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = -m; auto got = -__daisy_max(x0 * y0, x1 + y1); CHECK(same(got, want), "-__daisy_max(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = -m; auto got = -__daisy_max(-x0, x1 * y1); CHECK(same(got, want), "-__daisy_max(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = -m; auto got = -__daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "-__daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = -m; auto got = -__daisy_max((T) (x0 == y0), +x1); CHECK(same(got, want), "-__daisy_max((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = -m; auto got = -__daisy_max(+x0, x1 + y1); CHECK(same(got, want), "-__daisy_max(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m - w; auto got = __daisy_max(x0, x1 * y1) - w; CHECK(same(got, want), "__daisy_max(x0, x1 * y1) - w gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m - w; auto got = __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) - w; CHECK(same(got, want), "__daisy_max(x0 + y0, x1 < y1 ? y1 : z1) - w gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = m - w; auto got = __daisy_max(x0 - z0, +x1) - w; CHECK(same(got, want), "__daisy_max(x0 - z0, +x1) - w gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m - w; auto got = __daisy_max(x0 * y0, x1 + y1) - w; CHECK(same(got, want), "__daisy_max(x0 * y0, x1 + y1) - w gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m - w; auto got = __daisy_max(-x0, x1 * y1) - w; CHECK(same(got, want), "__daisy_max(-x0, x1 * y1) - w gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m - w; auto got = __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) - w; CHECK(same(got, want), "__daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) - w gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = m - w; auto got = __daisy_max((T) (x0 == y0), +x1) - w; CHECK(same(got, want), "__daisy_max((T) (x0 == y0), +x1) - w gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m - w; auto got = __daisy_max(+x0, x1 + y1) - w; CHECK(same(got, want), "__daisy_max(+x0, x1 + y1) - w gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_max(x0, x1 * y1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_max(x0, x1 * y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_max(x0 - z0, +x1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_max(x0 - z0, +x1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_max(x0 * y0, x1 + y1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_max(x0 * y0, x1 + y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_max(-x0, x1 * y1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_max(-x0, x1 * y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_max((T) (x0 == y0), +x1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_max((T) (x0 == y0), +x1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = w < m ? w : w + 1; auto got = w < __daisy_max(+x0, x1 + y1) ? w : w + 1; CHECK(same(got, want), "w < __daisy_max(+x0, x1 + y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_max(x0, x1 * y1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_max(x0, x1 * y1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_max(x0 + y0, x1 < y1 ? y1 : z1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_max(x0 - z0, +x1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_max(x0 - z0, +x1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_max(x0 * y0, x1 + y1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_max(x0 * y0, x1 + y1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_max(-x0, x1 * y1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_max(-x0, x1 * y1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_max((T) (x0 == y0), +x1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_max((T) (x0 == y0), +x1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m == w ? w : w + 1; auto got = __daisy_max(+x0, x1 + y1) == w ? w : w + 1; CHECK(same(got, want), "__daisy_max(+x0, x1 + y1) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m; auto got = (T) __daisy_max(x0, x1 * y1); CHECK(same(got, want), "(T) __daisy_max(x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m; auto got = (T) __daisy_max(x0 + y0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "(T) __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = m; auto got = (T) __daisy_max(x0 - z0, +x1); CHECK(same(got, want), "(T) __daisy_max(x0 - z0, +x1) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m; auto got = (T) __daisy_max(x0 * y0, x1 + y1); CHECK(same(got, want), "(T) __daisy_max(x0 * y0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = m; auto got = (T) __daisy_max(-x0, x1 * y1); CHECK(same(got, want), "(T) __daisy_max(-x0, x1 * y1) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = m; auto got = (T) __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1); CHECK(same(got, want), "(T) __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = m; auto got = (T) __daisy_max((T) (x0 == y0), +x1); CHECK(same(got, want), "(T) __daisy_max((T) (x0 == y0), +x1) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = m; auto got = (T) __daisy_max(+x0, x1 + y1); CHECK(same(got, want), "(T) __daisy_max(+x0, x1 + y1) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_max(x0, x1 * y1) ? w : w + 1; CHECK(same(got, want), "!__daisy_max(x0, x1 * y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_max(x0 + y0, x1 < y1 ? y1 : z1) ? w : w + 1; CHECK(same(got, want), "!__daisy_max(x0 + y0, x1 < y1 ? y1 : z1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_max(x0 - z0, +x1) ? w : w + 1; CHECK(same(got, want), "!__daisy_max(x0 - z0, +x1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_max(x0 * y0, x1 + y1) ? w : w + 1; CHECK(same(got, want), "!__daisy_max(x0 * y0, x1 + y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_max(-x0, x1 * y1) ? w : w + 1; CHECK(same(got, want), "!__daisy_max(-x0, x1 * y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) ? w : w + 1; CHECK(same(got, want), "!__daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_max((T) (x0 == y0), +x1) ? w : w + 1; CHECK(same(got, want), "!__daisy_max((T) (x0 == y0), +x1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = !m ? w : w + 1; auto got = !__daisy_max(+x0, x1 + y1) ? w : w + 1; CHECK(same(got, want), "!__daisy_max(+x0, x1 + y1) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = w + m * w; auto got = w + __daisy_max(x0, x1 * y1) * w; CHECK(same(got, want), "w + __daisy_max(x0, x1 * y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = w + m * w; auto got = w + __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) * w; CHECK(same(got, want), "w + __daisy_max(x0 + y0, x1 < y1 ? y1 : z1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto m = a > b ? a : b; auto want = w + m * w; auto got = w + __daisy_max(x0 - z0, +x1) * w; CHECK(same(got, want), "w + __daisy_max(x0 - z0, +x1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = w + m * w; auto got = w + __daisy_max(x0 * y0, x1 + y1) * w; CHECK(same(got, want), "w + __daisy_max(x0 * y0, x1 + y1) * w gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto m = a > b ? a : b; auto want = w + m * w; auto got = w + __daisy_max(-x0, x1 * y1) * w; CHECK(same(got, want), "w + __daisy_max(-x0, x1 * y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto m = a > b ? a : b; auto want = w + m * w; auto got = w + __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) * w; CHECK(same(got, want), "w + __daisy_max(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1) * w gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto m = a > b ? a : b; auto want = w + m * w; auto got = w + __daisy_max((T) (x0 == y0), +x1) * w; CHECK(same(got, want), "w + __daisy_max((T) (x0 == y0), +x1) * w gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto m = a > b ? a : b; auto want = w + m * w; auto got = w + __daisy_max(+x0, x1 + y1) * w; CHECK(same(got, want), "w + __daisy_max(+x0, x1 + y1) * w gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = m; auto got = __daisy_fma(x0, x1 * y1, (T) (x2 == y2)); CHECK(same(got, want), "__daisy_fma(x0, x1 * y1, (T) (x2 == y2)) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = m; auto got = __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2); CHECK(same(got, want), "__daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = m; auto got = __daisy_fma(x0 - z0, +x1, -x2); CHECK(same(got, want), "__daisy_fma(x0 - z0, +x1, -x2) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = m; auto got = __daisy_fma(x0 * y0, x1 + y1, +x2); CHECK(same(got, want), "__daisy_fma(x0 * y0, x1 + y1, +x2) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = m; auto got = __daisy_fma(-x0, x1 * y1, x2 - z2); CHECK(same(got, want), "__daisy_fma(-x0, x1 * y1, x2 - z2) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = m; auto got = __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2); CHECK(same(got, want), "__daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = m; auto got = __daisy_fma((T) (x0 == y0), +x1, x2); CHECK(same(got, want), "__daisy_fma((T) (x0 == y0), +x1, x2) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = m; auto got = __daisy_fma(+x0, x1 + y1, x2 * y2); CHECK(same(got, want), "__daisy_fma(+x0, x1 + y1, x2 * y2) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = w * m; auto got = w * __daisy_fma(x0, x1 * y1, (T) (x2 == y2)); CHECK(same(got, want), "w * __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = w * m; auto got = w * __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2); CHECK(same(got, want), "w * __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = w * m; auto got = w * __daisy_fma(x0 - z0, +x1, -x2); CHECK(same(got, want), "w * __daisy_fma(x0 - z0, +x1, -x2) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = w * m; auto got = w * __daisy_fma(x0 * y0, x1 + y1, +x2); CHECK(same(got, want), "w * __daisy_fma(x0 * y0, x1 + y1, +x2) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = w * m; auto got = w * __daisy_fma(-x0, x1 * y1, x2 - z2); CHECK(same(got, want), "w * __daisy_fma(-x0, x1 * y1, x2 - z2) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = w * m; auto got = w * __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2); CHECK(same(got, want), "w * __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = w * m; auto got = w * __daisy_fma((T) (x0 == y0), +x1, x2); CHECK(same(got, want), "w * __daisy_fma((T) (x0 == y0), +x1, x2) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = w * m; auto got = w * __daisy_fma(+x0, x1 + y1, x2 * y2); CHECK(same(got, want), "w * __daisy_fma(+x0, x1 + y1, x2 * y2) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = m * w; auto got = __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) * w; CHECK(same(got, want), "__daisy_fma(x0, x1 * y1, (T) (x2 == y2)) * w gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = m * w; auto got = __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) * w; CHECK(same(got, want), "__daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) * w gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = m * w; auto got = __daisy_fma(x0 - z0, +x1, -x2) * w; CHECK(same(got, want), "__daisy_fma(x0 - z0, +x1, -x2) * w gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = m * w; auto got = __daisy_fma(x0 * y0, x1 + y1, +x2) * w; CHECK(same(got, want), "__daisy_fma(x0 * y0, x1 + y1, +x2) * w gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = m * w; auto got = __daisy_fma(-x0, x1 * y1, x2 - z2) * w; CHECK(same(got, want), "__daisy_fma(-x0, x1 * y1, x2 - z2) * w gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = m * w; auto got = __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) * w; CHECK(same(got, want), "__daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) * w gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = m * w; auto got = __daisy_fma((T) (x0 == y0), +x1, x2) * w; CHECK(same(got, want), "__daisy_fma((T) (x0 == y0), +x1, x2) * w gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = m * w; auto got = __daisy_fma(+x0, x1 + y1, x2 * y2) * w; CHECK(same(got, want), "__daisy_fma(+x0, x1 + y1, x2 * y2) * w gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = w - m; auto got = w - __daisy_fma(x0, x1 * y1, (T) (x2 == y2)); CHECK(same(got, want), "w - __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = w - m; auto got = w - __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2); CHECK(same(got, want), "w - __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = w - m; auto got = w - __daisy_fma(x0 - z0, +x1, -x2); CHECK(same(got, want), "w - __daisy_fma(x0 - z0, +x1, -x2) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = w - m; auto got = w - __daisy_fma(x0 * y0, x1 + y1, +x2); CHECK(same(got, want), "w - __daisy_fma(x0 * y0, x1 + y1, +x2) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = w - m; auto got = w - __daisy_fma(-x0, x1 * y1, x2 - z2); CHECK(same(got, want), "w - __daisy_fma(-x0, x1 * y1, x2 - z2) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = w - m; auto got = w - __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2); CHECK(same(got, want), "w - __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = w - m; auto got = w - __daisy_fma((T) (x0 == y0), +x1, x2); CHECK(same(got, want), "w - __daisy_fma((T) (x0 == y0), +x1, x2) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = w - m; auto got = w - __daisy_fma(+x0, x1 + y1, x2 * y2); CHECK(same(got, want), "w - __daisy_fma(+x0, x1 + y1, x2 * y2) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = -m; auto got = -__daisy_fma(x0, x1 * y1, (T) (x2 == y2)); CHECK(same(got, want), "-__daisy_fma(x0, x1 * y1, (T) (x2 == y2)) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = -m; auto got = -__daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2); CHECK(same(got, want), "-__daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = -m; auto got = -__daisy_fma(x0 - z0, +x1, -x2); CHECK(same(got, want), "-__daisy_fma(x0 - z0, +x1, -x2) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = -m; auto got = -__daisy_fma(x0 * y0, x1 + y1, +x2); CHECK(same(got, want), "-__daisy_fma(x0 * y0, x1 + y1, +x2) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = -m; auto got = -__daisy_fma(-x0, x1 * y1, x2 - z2); CHECK(same(got, want), "-__daisy_fma(-x0, x1 * y1, x2 - z2) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = -m; auto got = -__daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2); CHECK(same(got, want), "-__daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = -m; auto got = -__daisy_fma((T) (x0 == y0), +x1, x2); CHECK(same(got, want), "-__daisy_fma((T) (x0 == y0), +x1, x2) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = -m; auto got = -__daisy_fma(+x0, x1 + y1, x2 * y2); CHECK(same(got, want), "-__daisy_fma(+x0, x1 + y1, x2 * y2) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = m - w; auto got = __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) - w; CHECK(same(got, want), "__daisy_fma(x0, x1 * y1, (T) (x2 == y2)) - w gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = m - w; auto got = __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) - w; CHECK(same(got, want), "__daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) - w gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = m - w; auto got = __daisy_fma(x0 - z0, +x1, -x2) - w; CHECK(same(got, want), "__daisy_fma(x0 - z0, +x1, -x2) - w gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = m - w; auto got = __daisy_fma(x0 * y0, x1 + y1, +x2) - w; CHECK(same(got, want), "__daisy_fma(x0 * y0, x1 + y1, +x2) - w gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = m - w; auto got = __daisy_fma(-x0, x1 * y1, x2 - z2) - w; CHECK(same(got, want), "__daisy_fma(-x0, x1 * y1, x2 - z2) - w gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = m - w; auto got = __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) - w; CHECK(same(got, want), "__daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) - w gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = m - w; auto got = __daisy_fma((T) (x0 == y0), +x1, x2) - w; CHECK(same(got, want), "__daisy_fma((T) (x0 == y0), +x1, x2) - w gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = m - w; auto got = __daisy_fma(+x0, x1 + y1, x2 * y2) - w; CHECK(same(got, want), "__daisy_fma(+x0, x1 + y1, x2 * y2) - w gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = w < m ? w : w + 1; auto got = w < __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) ? w : w + 1; CHECK(same(got, want), "w < __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = w < m ? w : w + 1; auto got = w < __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) ? w : w + 1; CHECK(same(got, want), "w < __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = w < m ? w : w + 1; auto got = w < __daisy_fma(x0 - z0, +x1, -x2) ? w : w + 1; CHECK(same(got, want), "w < __daisy_fma(x0 - z0, +x1, -x2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = w < m ? w : w + 1; auto got = w < __daisy_fma(x0 * y0, x1 + y1, +x2) ? w : w + 1; CHECK(same(got, want), "w < __daisy_fma(x0 * y0, x1 + y1, +x2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = w < m ? w : w + 1; auto got = w < __daisy_fma(-x0, x1 * y1, x2 - z2) ? w : w + 1; CHECK(same(got, want), "w < __daisy_fma(-x0, x1 * y1, x2 - z2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = w < m ? w : w + 1; auto got = w < __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) ? w : w + 1; CHECK(same(got, want), "w < __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = w < m ? w : w + 1; auto got = w < __daisy_fma((T) (x0 == y0), +x1, x2) ? w : w + 1; CHECK(same(got, want), "w < __daisy_fma((T) (x0 == y0), +x1, x2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = w < m ? w : w + 1; auto got = w < __daisy_fma(+x0, x1 + y1, x2 * y2) ? w : w + 1; CHECK(same(got, want), "w < __daisy_fma(+x0, x1 + y1, x2 * y2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = m == w ? w : w + 1; auto got = __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) == w ? w : w + 1; CHECK(same(got, want), "__daisy_fma(x0, x1 * y1, (T) (x2 == y2)) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = m == w ? w : w + 1; auto got = __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) == w ? w : w + 1; CHECK(same(got, want), "__daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = m == w ? w : w + 1; auto got = __daisy_fma(x0 - z0, +x1, -x2) == w ? w : w + 1; CHECK(same(got, want), "__daisy_fma(x0 - z0, +x1, -x2) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = m == w ? w : w + 1; auto got = __daisy_fma(x0 * y0, x1 + y1, +x2) == w ? w : w + 1; CHECK(same(got, want), "__daisy_fma(x0 * y0, x1 + y1, +x2) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = m == w ? w : w + 1; auto got = __daisy_fma(-x0, x1 * y1, x2 - z2) == w ? w : w + 1; CHECK(same(got, want), "__daisy_fma(-x0, x1 * y1, x2 - z2) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = m == w ? w : w + 1; auto got = __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) == w ? w : w + 1; CHECK(same(got, want), "__daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = m == w ? w : w + 1; auto got = __daisy_fma((T) (x0 == y0), +x1, x2) == w ? w : w + 1; CHECK(same(got, want), "__daisy_fma((T) (x0 == y0), +x1, x2) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = m == w ? w : w + 1; auto got = __daisy_fma(+x0, x1 + y1, x2 * y2) == w ? w : w + 1; CHECK(same(got, want), "__daisy_fma(+x0, x1 + y1, x2 * y2) == w ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = m; auto got = (T) __daisy_fma(x0, x1 * y1, (T) (x2 == y2)); CHECK(same(got, want), "(T) __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = m; auto got = (T) __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2); CHECK(same(got, want), "(T) __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = m; auto got = (T) __daisy_fma(x0 - z0, +x1, -x2); CHECK(same(got, want), "(T) __daisy_fma(x0 - z0, +x1, -x2) gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = m; auto got = (T) __daisy_fma(x0 * y0, x1 + y1, +x2); CHECK(same(got, want), "(T) __daisy_fma(x0 * y0, x1 + y1, +x2) gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = m; auto got = (T) __daisy_fma(-x0, x1 * y1, x2 - z2); CHECK(same(got, want), "(T) __daisy_fma(-x0, x1 * y1, x2 - z2) gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = m; auto got = (T) __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2); CHECK(same(got, want), "(T) __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = m; auto got = (T) __daisy_fma((T) (x0 == y0), +x1, x2); CHECK(same(got, want), "(T) __daisy_fma((T) (x0 == y0), +x1, x2) gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = m; auto got = (T) __daisy_fma(+x0, x1 + y1, x2 * y2); CHECK(same(got, want), "(T) __daisy_fma(+x0, x1 + y1, x2 * y2) gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = !m ? w : w + 1; auto got = !__daisy_fma(x0, x1 * y1, (T) (x2 == y2)) ? w : w + 1; CHECK(same(got, want), "!__daisy_fma(x0, x1 * y1, (T) (x2 == y2)) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = !m ? w : w + 1; auto got = !__daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) ? w : w + 1; CHECK(same(got, want), "!__daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = !m ? w : w + 1; auto got = !__daisy_fma(x0 - z0, +x1, -x2) ? w : w + 1; CHECK(same(got, want), "!__daisy_fma(x0 - z0, +x1, -x2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = !m ? w : w + 1; auto got = !__daisy_fma(x0 * y0, x1 + y1, +x2) ? w : w + 1; CHECK(same(got, want), "!__daisy_fma(x0 * y0, x1 + y1, +x2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = !m ? w : w + 1; auto got = !__daisy_fma(-x0, x1 * y1, x2 - z2) ? w : w + 1; CHECK(same(got, want), "!__daisy_fma(-x0, x1 * y1, x2 - z2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = !m ? w : w + 1; auto got = !__daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) ? w : w + 1; CHECK(same(got, want), "!__daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = !m ? w : w + 1; auto got = !__daisy_fma((T) (x0 == y0), +x1, x2) ? w : w + 1; CHECK(same(got, want), "!__daisy_fma((T) (x0 == y0), +x1, x2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = !m ? w : w + 1; auto got = !__daisy_fma(+x0, x1 + y1, x2 * y2) ? w : w + 1; CHECK(same(got, want), "!__daisy_fma(+x0, x1 + y1, x2 * y2) ? w : w + 1 gives " << +got << ", want " << +want); }
    { auto a = x0; auto b = x1 * y1; auto c = (T) (x2 == y2); auto m = a * b + c; auto want = w + m * w; auto got = w + __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) * w; CHECK(same(got, want), "w + __daisy_fma(x0, x1 * y1, (T) (x2 == y2)) * w gives " << +got << ", want " << +want); }
    { auto a = x0 + y0; auto b = x1 < y1 ? y1 : z1; auto c = x2 + y2; auto m = a * b + c; auto want = w + m * w; auto got = w + __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) * w; CHECK(same(got, want), "w + __daisy_fma(x0 + y0, x1 < y1 ? y1 : z1, x2 + y2) * w gives " << +got << ", want " << +want); }
    { auto a = x0 - z0; auto b = +x1; auto c = -x2; auto m = a * b + c; auto want = w + m * w; auto got = w + __daisy_fma(x0 - z0, +x1, -x2) * w; CHECK(same(got, want), "w + __daisy_fma(x0 - z0, +x1, -x2) * w gives " << +got << ", want " << +want); }
    { auto a = x0 * y0; auto b = x1 + y1; auto c = +x2; auto m = a * b + c; auto want = w + m * w; auto got = w + __daisy_fma(x0 * y0, x1 + y1, +x2) * w; CHECK(same(got, want), "w + __daisy_fma(x0 * y0, x1 + y1, +x2) * w gives " << +got << ", want " << +want); }
    { auto a = -x0; auto b = x1 * y1; auto c = x2 - z2; auto m = a * b + c; auto want = w + m * w; auto got = w + __daisy_fma(-x0, x1 * y1, x2 - z2) * w; CHECK(same(got, want), "w + __daisy_fma(-x0, x1 * y1, x2 - z2) * w gives " << +got << ", want " << +want); }
    { auto a = x0 < y0 ? y0 : z0; auto b = x1 < y1 ? y1 : z1; auto c = x2 < y2 ? y2 : z2; auto m = a * b + c; auto want = w + m * w; auto got = w + __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) * w; CHECK(same(got, want), "w + __daisy_fma(x0 < y0 ? y0 : z0, x1 < y1 ? y1 : z1, x2 < y2 ? y2 : z2) * w gives " << +got << ", want " << +want); }
    { auto a = (T) (x0 == y0); auto b = +x1; auto c = x2; auto m = a * b + c; auto want = w + m * w; auto got = w + __daisy_fma((T) (x0 == y0), +x1, x2) * w; CHECK(same(got, want), "w + __daisy_fma((T) (x0 == y0), +x1, x2) * w gives " << +got << ", want " << +want); }
    { auto a = +x0; auto b = x1 + y1; auto c = x2 * y2; auto m = a * b + c; auto want = w + m * w; auto got = w + __daisy_fma(+x0, x1 + y1, x2 * y2) * w; CHECK(same(got, want), "w + __daisy_fma(+x0, x1 + y1, x2 * y2) * w gives " << +got << ", want " << +want); }
}
int main(int argc, char** argv) {
    init(argc, argv, 4, 30);
    puts("RULE random operand values (int, long, unsigned, float, double) through 264 macro instantiations each");
    while (more()) { round<int>("int"); round<long>("long"); round<unsigned>("unsigned"); round<float>("float"); round<double>("double"); }
    return done();
}
