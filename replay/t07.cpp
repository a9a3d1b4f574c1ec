// assignments between every two primitive types through the classification of Tasklet.  The tasklet sits in a real
// data-flow graph; the two edges are stand-ins of which only the type they carry is used (Memlet::result_type).
#include "common.h"
#include <any>
#include <ranges>
#include <sstream>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <list>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graphviz.hpp>
#include <boost/functional/hash.hpp>
#include <nlohmann/json.hpp>
#define private public
#define protected public
#include <sdfg/data_flow/data_flow_graph.h>
#include <sdfg/data_flow/tasklet.h>
#include <sdfg/types/scalar.h>
#undef private
#undef protected
using namespace rp; using namespace sdfg;
static const char* N[] = {"Void", "Bool", "Int8", "Int16", "Int32", "Int64", "Int128", "UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Half", "BFloat", "Float", "Double", "X86_FP80", "FP128", "PPC_FP128"};
static const int W[] = {0, 1, 8, 16, 32, 64, 128, 8, 16, 32, 64, 128, 16, 16, 32, 64, 80, 128, 128};
alignas(64) static char in_mem[sizeof(data_flow::Memlet)], out_mem[sizeof(data_flow::Memlet)], fn_mem[64];
static int in_type, out_type;
// the edges' types (stand-in)
std::unique_ptr<types::IType> data_flow::Memlet::result_type(const Function&) const {
    return std::make_unique<types::Scalar>((types::PrimitiveType) ((const char*) this == in_mem ? in_type : out_type));
}
int main(int argc, char** argv) {
    init(argc, argv, 2, 4);
    puts("RULE assignments (and a few other operations) between every two primitive types; non-trivial: every assignment that changes the type");
    auto& g = *new data_flow::DataFlowGraph();
    auto a = boost::add_vertex(g.graph_), t = boost::add_vertex(g.graph_), b = boost::add_vertex(g.graph_);
    auto e = boost::add_edge(a, t, g.graph_).first, f = boost::add_edge(t, b, g.graph_).first;
    g.edges_[e].reset((data_flow::Memlet*) in_mem); g.edges_[f].reset((data_flow::Memlet*) out_mem);
    auto& fun = *(const Function*) fn_mem;
    DebugInfo none;
    for (auto code : {data_flow::TaskletCode::assign, data_flow::TaskletCode::fp_neg, data_flow::TaskletCode::int_add, data_flow::TaskletCode::int_abs}) {
        auto& k = *new data_flow::Tasklet(1, none, t, g, code, "_out", {"_in"});
        bool as = code == data_flow::TaskletCode::assign;
        for (in_type = 0; in_type < 19; in_type++) for (out_type = 0; out_type < 19; out_type++) {
            int i = in_type, o = out_type;
            at(std::string(as ? "assignment of " : "operation on ") + N[i] + " to " + N[o], as && i != o);
            auto S = [](int x) { return x >= 2 && x <= 6; }; auto U = [](int x) { return x >= 7 && x <= 11; }; auto F = [](int x) { return x >= 12; }; auto I = [](int x) { return x >= 1 && x <= 11; };
            struct R { const char* n; bool got, want; } rs[] = {
                {"is_trivial", k.is_trivial(fun), i == o}, {"is_cast", k.is_cast(fun), i != o},
                {"is_zext", k.is_zext(fun), U(i) && U(o) && W[o] > W[i]}, {"is_sext", k.is_sext(fun), S(i) && S(o) && W[o] > W[i]},
                {"is_trunc", k.is_trunc(fun), I(i) && I(o) && U(i) == U(o) && W[o] < W[i]},
                {"is_fptoui", k.is_fptoui(fun), F(i) && U(o)}, {"is_fptosi", k.is_fptosi(fun), F(i) && S(o)},
                {"is_uitofp", k.is_uitofp(fun), U(i) && F(o)}, {"is_sitofp", k.is_sitofp(fun), S(i) && F(o)},
                {"is_fpext", k.is_fpext(fun), F(i) && F(o) && W[o] > W[i]}, {"is_fptrunc", k.is_fptrunc(fun), F(i) && F(o) && W[o] < W[i]}};
            for (auto& r : rs) CHECK(r.got == (as && r.want), r.n << " says " << (r.got ? "yes" : "no"));
        }
    }
    return done();
}
