// Reference projection, independent of the project's own point types and dispatch.
#include <boost/geometry.hpp>
#include <boost/geometry/srs/epsg.hpp>
#include <boost/geometry/srs/transformation.hpp>

#include <utility>

namespace imp {

    namespace bg = boost::geometry;
    using XY = std::pair<double, double>;
    using GP = bg::model::point<double, 2, bg::cs::geographic<bg::degree>>;
    using CP = bg::model::point<double, 2, bg::cs::cartesian>;

    template<typename A, typename B>
    static XY transform(int from, int to, XY p) {
        const bg::srs::transformation<> t{bg::srs::epsg{from}, bg::srs::epsg{to}};
        B out;
        t.forward(A{p.first, p.second}, out);
        return {bg::get<0>(out), bg::get<1>(out)};
    }

    XY project(int from, int to, XY p) {
        if (from == to) return p;
        if (from == 4326) return to == 4326 ? transform<GP, GP>(from, to, p) : transform<GP, CP>(from, to, p);
        return to == 4326 ? transform<CP, GP>(from, to, p) : transform<CP, CP>(from, to, p);
    }

}
