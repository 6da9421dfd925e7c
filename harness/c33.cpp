// C33: objects that are gone, and calls that failed, leave nothing behind: no memory, no open file, no thread.
#include <atomic>
#include <filesystem>
#include <cstdlib>
#include <dirent.h>
#include <malloc.h>
#include <new>
#include "model.hpp"
#include "io.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/io/io_utilities.h"
#include "queso/utilities/mesh_utilities.h"
namespace live {
std::atomic<long> blocks{ 0 }, bytes{ 0 }, total{ 0 };
void* get(size_t n, size_t al) {
    void* p = al ? std::aligned_alloc(al, (n + al - 1) / al * al + (n ? 0 : al)) : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    blocks.fetch_add(1, std::memory_order_relaxed); bytes.fetch_add(long(malloc_usable_size(p)), std::memory_order_relaxed); total.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void put(void* p) {
    if (!p) return;
    blocks.fetch_sub(1, std::memory_order_relaxed); bytes.fetch_sub(long(malloc_usable_size(p)), std::memory_order_relaxed);
    std::free(p);
}
}
void* operator new(size_t n) { return live::get(n, 0); }
void* operator new[](size_t n) { return live::get(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return live::get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return live::get(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return live::get(n, 0); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return live::get(n, 0); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { live::put(p); }
void operator delete[](void* p) noexcept { live::put(p); }
void operator delete(void* p, size_t) noexcept { live::put(p); }
void operator delete[](void* p, size_t) noexcept { live::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { live::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { live::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { live::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { live::put(p); }
using namespace queso;
using SA = DictionaryStringAccess<q::Dict>;
namespace {
int entries(const char* d) {
    int n = 0;
    if (DIR* p = opendir(d)) { while (readdir(p)) ++n; closedir(p); }
    return n;
}
struct State { long blocks, bytes; int files, threads; };
State now() { return { live::blocks.load(), live::bytes.load(), entries("/proc/self/fd"), entries("/proc/self/task") }; }
struct Did { long done = 0, refused = 0, elements = 0, segments = 0, domains = 0, nodomains = 0; };
template<class F> void attempt(Did& d, F&& f) {
    try { f(); ++d.done; }
    catch (const std::exception&) { ++d.refused; }
}
// One kind of use each; everything is local.
void use_model(h::Rng& r, const std::string& dir, Did& d) {
    q::Scene s = q::scene(r, 4, 2, 1, -1, r.p(.2));
    s.opt.min_tri = size_t(r.i(1, 60));
    const auto tri = q::to(s.mesh);
    const bool alone = r.p(.5), write = r.p(.3);
    auto st = q::settings(s.grid, s.opt);
    (*st)[MainSettings::general_settings].SetValue(GeneralSettings::write_output_to_file, write);
    (*st)[MainSettings::general_settings].SetValue(GeneralSettings::output_directory_name, r.p(.8) ? dir : dir + "/missing/deeper");
    auto model = EmbeddedModel::Create(std::move(st));
    model.CreateVolume(tri.View());
    for (const auto& e : model.GetElementViews()) { (void)e; ++d.elements; }
    std::vector<Unique<q::Dict>> keep;
    for (int i = r.i(0, 3); i > 0; --i) {
        auto c = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
        c->SetValue(ConditionSettings::condition_id, IndexType(i));
        c->SetValue(ConditionSettings::input_filename, std::string("c.stl"));
        if (r.p(.8)) c->CheckRequired();
        const auto m = q::to(q::surface(r, s));
        attempt(d, [&] { model.CreateCondition(m.View(), *c); });
        keep.push_back(std::move(c));
    }
    for (const auto& c : model.GetConditions()) d.segments += long(c.NumberOfSegments());
    if (r.p(.5)) attempt(d, [&] { model.WriteModelToFile(); });
    if (r.p(.5)) { EmbeddedModel other = std::move(model); if (!alone) { auto t = q::settings(s.grid, s.opt); auto m2 = EmbeddedModel::Create(std::move(t)); m2.CreateVolume(tri.View()); m2 = std::move(other); } }
}
void use_files(h::Rng& r, const std::string& dir, Did& d) {
    const auto m = g::body(r, 1);
    const auto tri = q::to(m);
    const std::string f = dir + "/a.stl";
    const auto e = r.p(.5) ? IO::EncodingType::binary : IO::EncodingType::ascii;
    const std::string to = r.p(.4) ? f : r.p(.3) ? std::string("/dev/full") : r.p(.5) ? dir + "/missing/a.stl" : dir;
    attempt(d, [&] { IO::WriteMeshToSTL(tri, to, e); });
    attempt(d, [&] { IO::WriteMeshToVTK(tri, to, e); });
    auto dict = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    attempt(d, [&] { IO::WriteDictionaryToJSON(*dict, to); });
    auto p = r.p(.5) ? io::produce_ascii(r, m) : io::produce_binary(r, m);
    if (r.p(.6)) {// damaged
        const int k = r.i(0, 3);
        if (k == 0) p.bytes.resize(size_t(r.u() * double(p.bytes.size())));
        else for (int i = r.i(1, 5); i > 0 && !p.bytes.empty(); --i) p.bytes[size_t(r.i(0, int(p.bytes.size()) - 1))] = char(r.i(0, 255));
        if (p.bytes.size() >= 84 && p.bytes.compare(0, 5, "solid") != 0) {// keep the number of triangles that may be reserved small
            unsigned n; std::memcpy(&n, &p.bytes[80], 4); n %= 100000; std::memcpy(&p.bytes[80], &n, 4);
        }
    }
    io::spit(f, p.bytes);
    TriangleMesh back;
    attempt(d, [&] { IO::ReadMeshFromSTL(back, r.p(.9) ? f : dir + "/none.stl"); });
    attempt(d, [&] { IO::ReadMeshFromSTL(back, r.p(.5) ? f : dir); });
}
void use_queries(h::Rng& r, const std::string&, Did& d) {
    q::Scene s = q::scene(r, 4, 2, 1);
    auto tri = q::to(s.mesh);
    if (r.p(.5)) {// a flawed surface: cells may be refused after their boundary has been built
        if (tri.NumOfTriangles() < 200 && r.p(.7)) MeshUtilities::Refine(tri, IndexType(r.i(50, 400)));
        for (int k = r.p(.5) ? r.i(1, 5) : r.i(5, 60); k > 0 && tri.NumOfTriangles() > 4; --k) tri.RemoveTriangle(IndexType(r.i(0, int(tri.NumOfTriangles()) - 1)));
    }
    auto st = q::settings(s.grid, s.opt);
    BRepOperator op(tri.View());
    const size_t n = size_t(s.grid.n[0]) * size_t(s.grid.n[1]) * size_t(s.grid.n[2]);
    auto cl = op.pGetElementClassifications(*st);
    for (int k = 0; k < 6; ++k) {
        auto [lo, up] = s.grid.cell(size_t(r.i(0, int(n) - 1)));
        attempt(d, [&] { const auto how = op.GetIntersectionState(q::vd(lo), q::vd(up)); auto t = op.pGetTrimmedDomain(q::vd(lo), q::vd(up), r.p(.5) ? 0.0 : 1e-3, size_t(r.i(1, 50)), r.p(.7)); if (how == IntersectionState::trimmed) ++(t ? d.domains : d.nodomains); });
        attempt(d, [&] { auto t = op.ClipTriangleMesh(q::vd(lo), q::vd(up)); auto u = op.ClipTriangleMeshUnique(q::vd(lo), q::vd(up)); });
        attempt(d, [&] { (void)op.IsInside(q::vd(r.p(.5) ? lo : up)); (void)op.GetIntersectionState(q::vd(lo), q::vd(up)); });
    }
    TriangleMesh copy;
    MeshUtilities::Append(copy, tri);
    attempt(d, [&] { MeshUtilities::Refine(copy, copy.NumOfTriangles() * 3); });
    attempt(d, [&] { copy.RemoveTriangle(copy.NumOfTriangles() - 1); });
}
void use_settings(h::Rng& r, const std::string&, Did& d) {
    q::Scene s = q::scene(r, 4, 3, 1);
    if (r.p(.5)) s.opt.method = IntegrationMethod::ggq_optimal;
    auto st = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    if (r.p(.7)) q::fill(*st, s.grid, s.opt);
    auto& list = st->GetList(MainSettings::conditions_settings_list);
    for (int i = r.i(0, 4); i > 0; --i) {
        auto c = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
        if (r.p(.7)) c->SetValue(ConditionSettings::condition_id, IndexType(i));
        if (r.p(.5)) c->SetValue(ConditionSettings::input_filename, std::string(size_t(r.i(0, 200)), 'x'));
        list.push_back(std::move(c));
    }
    attempt(d, [&] { DictionaryFactory<key::MainValuesTypeTag>::Create(r.p(.5) ? "ModelInfo" : "Nothing"); });
    attempt(d, [&] { SA::SetValue((*st)[MainSettings::general_settings], "input_filename", std::string(100, 'y')); });
    attempt(d, [&] { SA::SetValue((*st)[MainSettings::general_settings], "echo_level", std::string(100, 'y')); });
    attempt(d, [&] { (void)SA::GetValue<std::string>((*st)[MainSettings::general_settings], "nothing"); });
    attempt(d, [&] { auto m = EmbeddedModel::Create(std::move(st)); m.CreateAllFromSettings(); });
}
}
int main(int argc, char** argv) {
    return h::run(argc, argv, [](const h::Args& a, long c, h::Rng& r, h::Report& R) {
        static const char* names[]{ "model", "files", "queries", "settings" };
        using Use = void (*)(h::Rng&, const std::string&, Did&);
        static const Use uses[]{ use_model, use_files, use_queries, use_settings };
        const int kind = int(c % 4);
        const uint64_t seed = r.next();
        const std::string dir = a.tmp + "/c33";
        std::filesystem::remove_all(dir);
        std::filesystem::create_directories(dir);
        const int rounds = 4;
        State st[rounds + 1];
        Did did[rounds];
        for (int i = 0; i < rounds; ++i) {// the first round fills caches
            if (i == 0) st[0] = now();
            { h::Rng q(seed); h::device() = unsigned(seed); uses[kind](q, dir, did[i]); }
            st[i + 1] = now();
        }
        const auto& x = st[rounds]; const auto& y = st[1];
        const std::string where = std::string(names[kind]) + " x" + std::to_string(rounds - 1) + " (" + std::to_string(did[0].done) + " done, " + std::to_string(did[0].refused) + " refused)";
        bool grows = true;// each round as much as the last: not a cache
        for (int i = 2; i <= rounds; ++i) grows = grows && st[i].blocks > st[i - 1].blocks;
        R.check(!grows, "memory", [&] { return where + ": " + std::to_string(x.blocks - y.blocks) + " blocks, " + std::to_string(x.bytes - y.bytes) + " bytes more than before"; });
        R.check(x.blocks - y.blocks >= 0 || x.blocks >= st[0].blocks, "memory-released-twice", [&] { return where; });
        R.check(x.files <= y.files, "files", [&] { return where + ": " + std::to_string(x.files - y.files) + " more open files"; });
        R.check(x.threads <= y.threads, "threads", [&] { return where + ": " + std::to_string(x.threads - y.threads) + " more threads"; });
        bool same = true;
        for (int i = 1; i < rounds; ++i) same = same && did[i].done == did[0].done && did[i].refused == did[0].refused && did[i].elements == did[0].elements && did[i].segments == did[0].segments && did[i].domains == did[0].domains;
        R.check(same, "history", [&] { return where + ": the same use gave other results when repeated"; });
        R.count("refused", did[0].refused); R.count("done", did[0].done); R.count("elements", did[0].elements); R.count("segments", did[0].segments); R.count("trimmed domains", did[0].domains); R.count("refused domains", did[0].nodomains);
        R.count(std::string("uses of ") + names[kind]);
        if (x.blocks != y.blocks) R.count("uses after which blocks remained");
        if (did[0].done + did[0].elements) R.nontrivial(h::mix(seed, uint64_t(kind)));
    });
}
