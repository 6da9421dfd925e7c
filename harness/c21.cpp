// C21: a failed write is reported and never looks like success. Write calls of the process are intercepted while armed.
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <filesystem>
#include <iostream>
#include <sys/resource.h>
#include <sys/uio.h>
#include <unistd.h>
#include "io.hpp"
#include "model.hpp"
#include "queso/io/io_utilities.h"
using namespace queso;
namespace fault {
bool armed = false;
int kind = 0;// 0 none, 1 error, 2 short write, 3 interrupted once
int err = ENOSPC;
long at = -1, calls = 0, hits = 0;
bool sticky = true;
long decide(size_t n) {// -2: pass on; otherwise number of bytes to write, or -1 error
    ++calls;
    if (kind == 0 || (sticky && kind == 1 ? calls - 1 < at : calls - 1 != at)) return -2;
    ++hits;
    if (kind == 1) { errno = err; return -1; }
    if (kind == 3) { errno = EINTR; return -1; }
    return long(n > 1 ? n / 2 : n);
}
}
using W = ssize_t (*)(int, const void*, size_t);
using WV = ssize_t (*)(int, const struct iovec*, int);
extern "C" ssize_t write(int fd, const void* p, size_t n) {
    static W real = reinterpret_cast<W>(dlsym(RTLD_NEXT, "write"));
    if (!fault::armed || fd <= 2) return real(fd, p, n);
    const long d = fault::decide(n);
    if (d == -1) return -1;
    return real(fd, p, d == -2 ? n : size_t(d));
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    static WV real = reinterpret_cast<WV>(dlsym(RTLD_NEXT, "writev"));
    static W realw = reinterpret_cast<W>(dlsym(RTLD_NEXT, "write"));
    if (!fault::armed || fd <= 2) return real(fd, v, c);
    size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
    const long d = fault::decide(n);
    if (d == -1) return -1;
    if (d == -2) return real(fd, v, c);
    const size_t first = v[0].iov_len ? std::min(v[0].iov_len, size_t(d)) : 0;// a short gathered write
    return first ? realw(fd, v[0].iov_base, first) : real(fd, v, c);
}
struct Builder {
    using ElementType = EmbeddedModel::BackgroundGridType::UntrimmedElementType;
    static constexpr EmbeddedModel::BackgroundGridType::ElementFilter Builds = EmbeddedModel::BackgroundGridType::ElementFilter::untrimmed;
    int n;
    std::optional<ElementType> Build(IndexType id, const ElementBounds& b) { ElementType e(id, b); for (int i = 0; i < n; ++i) e.GetIntegrationPoints().emplace_back(.5, .25, .125, 1.0 + i); return e; }
};
int main(int argc, char** argv) {
    std::signal(SIGXFSZ, SIG_IGN);
    return h::run(argc, argv, [](const h::Args& a, long, h::Rng& r, h::Report& R) {
        q::Scene s = q::scene(r, 4, 1, 1, -1);
        s.opt.min_tri = 1;
        const std::string dir = a.tmp + "/c21";
        std::filesystem::remove_all(dir);
        std::filesystem::create_directories(dir + "/sub");
        auto st = q::settings(s.grid, s.opt);
        auto& gen = (*st)[MainSettings::general_settings];
        gen.SetValue(GeneralSettings::write_output_to_file, true);
        gen.SetValue(GeneralSettings::output_directory_name, dir + "/out");
        auto model = EmbeddedModel::Create(std::move(st));
        auto tri = q::to(r.p(.15) ? g::sphere(r.i(60, 120), r.i(60, 120)) : s.mesh);// the large ones exceed the writer's buffer
        const auto body = q::to(s.mesh);
        model.CreateVolume(body.View());
        auto cs = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
        cs->SetValue(ConditionSettings::condition_id, IndexType(1));
        cs->SetValue(ConditionSettings::input_filename, std::string("none.stl"));
        cs->CheckRequired();
        model.CreateCondition(tri.View(), *cs);
        const auto& cond = *model.GetConditions().begin();
        auto S = q::settings(s.grid, s.opt);
        EmbeddedModel::BackgroundGridType grid(*S);
        Builder bu{ r.p(.15) ? 3000 : r.i(1, 30) };
        for (size_t k = 0; k < s.grid.size(); ++k) grid.MakeElement(bu, k + 1, q::bounds(s.grid, k));
        grid.LockElements();
        using E = IO::EncodingType;
        const E enc = r.p(.6) ? E::binary : E::ascii;
        struct Op { const char* name; std::function<void(const std::string&)> run; };
        const std::vector<Op> ops{ { "mesh-stl", [&](const std::string& f) { IO::WriteMeshToSTL(tri, f, enc); } }, { "mesh-vtk", [&](const std::string& f) { IO::WriteMeshToVTK(tri, f, enc); } },
            { "condition-stl", [&](const std::string& f) { IO::WriteConditionToSTL(cond, f, enc); } }, { "elements-vtk", [&](const std::string& f) { IO::WriteElementsToVTK(grid, f, enc); } },
            { "points-vtk", [&](const std::string& f) { IO::WritePointsToVTK(grid, f, enc); } }, { "json", [&](const std::string& f) { IO::WriteDictionaryToJSON(*S, f); } } };
        const Op op = ops[size_t(r.i(0, int(ops.size()) - 1))];
        const std::string ref = dir + "/ref", f = dir + "/file";
        auto where = [&](const std::string& w) { return std::string(op.name) + (enc == E::binary ? " binary " : " ascii ") + w; };
        fault::calls = 0; fault::kind = 0; fault::armed = true;
        op.run(ref);
        fault::armed = false;
        const long ncalls = fault::calls;
        const std::string want = io::slurp(ref);
        R.count("write calls", double(ncalls));
        auto attempt = [&](const std::string& path, std::string& msg) {
            try { op.run(path); return true; }
            catch (const std::exception& e) { msg = e.what(); return false; }
        };
        auto must_fail = [&](bool ok, const char* key, const std::string& w) { R.check(!ok, key, [&] { return where(w); }); R.count(std::string("failed writes: ") + op.name); };
        std::string msg;
        // cannot be created
        must_fail(attempt(dir + "/none/file", msg), "success-without-directory", "missing directory");
        must_fail(attempt(dir + "/sub", msg), "success-on-directory", "path is a directory");
        must_fail(attempt(ref + "/file", msg), "success-below-file", "path goes through a file");
        must_fail(attempt(dir + "/" + std::string(300, 'x'), msg), "success-on-long-name", "name too long");
        must_fail(attempt("", msg), "success-on-empty-name", "empty name");
        // device that is always full
        must_fail(attempt("/dev/full", msg), "success-on-full-device", "/dev/full, " + h::str(want.size()) + " bytes");
        // size limits
        for (int k = 0; k < 4; ++k) {
            const size_t lim = r.p(.2) ? want.size() - 1 : r.p(.15) ? want.size() : r.p(.1) ? 0 : r.p(.3) ? (size_t(r.i(1, 40)) << 13) + size_t(r.i(-1, 1)) : size_t(r.next() % (want.size() + 100));
            struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
            struct rlimit nw = old; nw.rlim_cur = lim;
            std::filesystem::remove(f);
            setrlimit(RLIMIT_FSIZE, &nw);
            const bool ok = attempt(f, msg);
            setrlimit(RLIMIT_FSIZE, &old);
            if (lim < want.size()) { must_fail(ok, "success-beyond-limit", "limit " + h::str(lim) + " of " + h::str(want.size()) + " bytes"); R.count("truncated writes"); }
            else { R.check(ok && io::slurp(f) == want, "failure-within-limit", [&] { return where("limit " + h::str(lim) + " of " + h::str(want.size()) + " " + msg); }); R.count("complete writes"); }
        }
        // faults of single calls
        for (int k = 0; k < 4; ++k) {
            fault::kind = r.i(1, 3); fault::err = r.pick(std::vector<int>{ ENOSPC, EIO, EDQUOT, EFBIG }); fault::at = long(r.next() % uint64_t(ncalls + 1)); fault::sticky = r.p(.5);
            if (r.p(.3)) fault::at = ncalls - 1;
            fault::calls = fault::hits = 0;
            std::filesystem::remove(f);
            fault::armed = true;
            const bool ok = attempt(f, msg);
            fault::armed = false;
            const std::string got = io::slurp(f);
            const std::string w = "fault kind " + h::str(fault::kind) + " at call " + h::str(fault::at) + " of " + h::str(ncalls) + (fault::sticky ? " lasting " : " once ") + h::str(got.size()) + " of " + h::str(want.size()) + " bytes";
            if (fault::kind == 1 && fault::hits) { must_fail(ok, "success-after-write-error", w); R.count("write errors"); }
            else { R.check(ok && got == want, "failure-without-error", [&] { return where(w + " " + msg); }); R.count("complete writes"); }
            if (ok) R.check(got == want, "incomplete-file", [&] { return where(w); });
        }
        // everything still works afterwards
        std::filesystem::remove(f);
        R.check(attempt(f, msg) && io::slurp(f) == want, "not-usable-after-failure", [&] { return where(msg); });
        // whole models
        {
            bool ok = true;
            try { model.WriteModelToFile(); } catch (const std::exception&) { ok = false; }
            R.check(!ok, "model-written-without-directory", [&] { return where("output directory does not exist"); });
            std::filesystem::create_directories(dir + "/out");
            fault::kind = 0; fault::calls = 0; fault::armed = true;
            model.WriteModelToFile();
            fault::armed = false;
            const long n = fault::calls;
            const std::vector<std::string> files{ "elements.vtk", "integration_points.vtk", "condition_id_1.stl" };
            std::vector<std::string> full; for (auto& x : files) full.push_back(io::slurp(dir + "/out/" + x));
            for (int k = 0; k < 3; ++k) {
                fault::kind = 1; fault::at = r.p(.3) ? n - 1 : long(r.next() % uint64_t(n)); fault::calls = fault::hits = 0; fault::sticky = r.p(.5); fault::err = ENOSPC;
                ok = true;
                fault::armed = true;
                try { model.WriteModelToFile(); } catch (const std::exception&) { ok = false; }
                fault::armed = false;
                if (fault::hits) { R.check(!ok, "model-written-despite-error", [&] { return where("model, error at call " + h::str(fault::at) + " of " + h::str(n)); }); R.count("failed model writes"); }
                else R.check(ok, "model-not-written", [&] { return where("model"); });
            }
            fault::kind = 0;
            model.WriteModelToFile();
            for (size_t k = 0; k < files.size(); ++k) R.check(io::slurp(dir + "/out/" + files[k]) == full[k], "model-not-usable-after-failure", [&] { return files[k]; });
        }
        R.nontrivial(h::mix(want.size(), r.next()));
        R.sample(where(h::str(want.size()) + " bytes in " + h::str(ncalls) + " calls"));
    });
}
