// C10: printing to sinks that fail, fill up, throw, stall or accept only a part.
#include "lib.h"
#include <locale>
#include <ostream>
#include <streambuf>

using namespace sim;
using namespace simlib;

namespace {

struct SinkError { int code; };

// A simulated device. Faults happen at exact byte positions or calls.
struct Sink : std::streambuf {
    enum Mode { HEALTHY, FULL, THROW, SHORT, TRANSIENT, BUFFERED, THROW_STD, SYNC_FAILS, MODES };
    Mode mode; u64 k, m; std::string got; bool fired = false; char area[64]; u64 calls = 0;
    Sink(Mode md, u64 k_, u64 m_) : mode(md), k(k_), m(m_) { if (mode == BUFFERED) setp(area, area + 1 + m % 63); }
    char const * pb() const { return pbase(); }
    size_t pn() const { return pptr() - pbase(); }
    u64 room() const { return got.size() < k ? k - got.size() : 0; }
    bool flushBuffer() {
        u64 n = pptr() - pbase(), t = std::min<u64>(n, room());
        got.append(pbase(), t);
        setp(area, area + 1 + m % 63);
        if (t < n) { fired = true; return false; }
        return true;
    }
    int_type overflow(int_type c) override {
        if (c == traits_type::eof()) return traits_type::not_eof(c);
        char ch = static_cast<char>(c);
        if (mode == BUFFERED) { if (!flushBuffer()) return traits_type::eof(); *pptr() = ch; pbump(1); return c; }
        return put(&ch, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(char const * s, std::streamsize n) override {
        if (mode == BUFFERED) return std::streambuf::xsputn(s, n);
        return put(s, n);
    }
    std::streamsize put(char const * s, std::streamsize n) {
        ++calls;
        switch (mode) {
            case FULL: { u64 t = std::min<u64>(n, room()); got.append(s, t); if (t < u64(n)) fired = true; return t; }
            case THROW: if (u64(n) > room()) { got.append(s, room()); fired = true; throw SinkError{7}; } break;
            case THROW_STD: if (u64(n) > room()) { fired = true; throw std::bad_alloc(); } break;
            case SHORT: if (n > 1 && calls > k % 13) { u64 t = n - 1 - m % n % std::max<std::streamsize>(1, n); if (t >= u64(n)) t = n - 1; got.append(s, t); fired = true; return t; } break;
            case TRANSIENT: if (!fired && u64(n) > room()) { u64 t = room(); got.append(s, t); fired = true; return t; } break;
            default: break;
        }
        got.append(s, n);
        return n;
    }
    int sync() override {
        if (mode == BUFFERED) return flushBuffer() ? 0 : -1;
        if (mode == SYNC_FAILS) { fired = true; return -1; }
        return 0;
    }
};

struct Grouping : std::numpunct<char> {
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3"; }
    char do_decimal_point() const override { return ','; }
};

enum ObjKind { O_REGION, O_LON, O_LAT, O_ANGLE, O_NANGLE, O_LONLAT, O_VEC, O_UVEC, O_MAT, O_I1, O_BOX3, O_RS, O_KINDS };

struct Obj { u64 kind; RegionPtr region; std::vector<double> d; std::unique_ptr<sg::RangeSet> rs; };

struct Streams : World {
    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        int n = r.range(1, 5);
        GenOptions o; o.pCompound = 0; o.maxHull = 12;
        genSizes(r, o, 200, 1500, 0);
        for (int i = 0; i < n; ++i) {
            u64 k = r.chance(0.5) ? u64(O_REGION) : r.range(1, O_KINDS - 1);
            Spec s;
            if (k == O_REGION) s = genRegion(r, o);
            else if (k == O_RS) { int m = r.chance(0.1) ? r.below(400) : r.below(8); for (int j = 0; j < m; ++j) { u64 b = r.next() >> r.below(64); s.push_back(b); s.push_back(b + 1 + r.below(1000)); } }
            else for (int j = 0; j < 9; ++j) {
                switch (r.below(6)) {
                    case 0: s.push_back(bits(r.real(-1, 1) * std::pow(10.0, double(int(r.below(600)) - 300)))); break;
                    case 1: s.push_back(bits(double(int(r.below(5)) - 2))); break;
                    case 2: s.push_back(bits(r.chance(0.5) ? INFINITY : -INFINITY)); break;
                    default: s.push_back(bits(r.real(-4, 4)));
                }
            }
            s.insert(s.begin(), k);
            p.add("obj", s);
        }
        int sc = r.range(2, thorough ? 40 : 16);
        for (int i = 0; i < sc; ++i) {
            // formatting: flags, precision, fill, locale, exception mask, unitbuf, tied
            p.add("stream", {r.next(), r.below(25), r.below(4), r.below(3), r.below(8), r.chance(0.15), r.chance(0.1)});
            p.add("sink", {r.range(0, Sink::MODES - 1), r.chance(0.1) ? r.below(2000) : r.chance(0.1) ? u64(std::exp(r.real(4, 11.5))) : r.below(140), r.next() % 1000});
            for (int j = r.range(1, 5); j > 0; --j) p.add("print", {r.below(n), r.chance(0.2) ? r.below(60) : 0, r.below(6)});
            p.add("check", {});
        }
        return p;
    }
    std::vector<Op> simpler(Op const & op) override {
        std::vector<Op> out;
        if (op.name == "obj") {
            if (op.arg(0) == O_REGION) for (auto & s : simplerSpecs(Spec(op.a.begin() + 1, op.a.end()))) { s.insert(s.begin(), 0); out.push_back({"obj", s}); }
            return out;
        }
        for (size_t i = 0; i < op.a.size(); ++i) for (u64 v : {u64(0), u64(1), op.a[i] / 2}) if (op.a[i] > v) { Op t = op; t.a[i] = v; out.push_back(t); }
        return out;
    }

    static void print(std::ostream & os, Obj const & o) {
        using namespace sg;
        auto D = [&](size_t i) { return o.d[i % o.d.size()]; };
        sut([&] {
            switch (o.kind) {
                case O_REGION:
                    if (auto p = dynamic_cast<Box const *>(o.region.get())) os << *p;
                    else if (auto p = dynamic_cast<Circle const *>(o.region.get())) os << *p;
                    else if (auto p = dynamic_cast<Ellipse const *>(o.region.get())) os << *p;
                    else if (auto p = dynamic_cast<ConvexPolygon const *>(o.region.get())) os << *p;
                    break;
                case O_LON: os << NormalizedAngleInterval(NormalizedAngle(fin(D(0))), NormalizedAngle(fin(D(1)))); break;
                case O_LAT: os << AngleInterval::fromRadians(D(0), D(1)); break;
                case O_ANGLE: os << Angle(D(0)); break;
                case O_NANGLE: os << NormalizedAngle(fin(D(0))); break;
                case O_LONLAT: os << LonLat::fromRadians(fin(D(0)), std::atan(D(1))); break;
                case O_VEC: os << Vector3d(D(0), D(1), D(2)); break;
                case O_UVEC: os << UnitVector3d(fin(D(0)), fin(D(1)), 1.0); break;
                case O_MAT: os << Matrix3d(D(0), D(1), D(2), D(3), D(4), D(5), D(6), D(7), D(8)); break;
                case O_I1: os << Interval1d(D(0), D(1)); break;
                case O_BOX3: os << Box3d(Interval1d(D(0), D(1)), Interval1d(D(2), D(3)), Interval1d(D(4), D(5))); break;
                case O_RS: os << *o.rs; break;
            }
        });
    }
    static double fin(double x) { return std::isfinite(x) && std::fabs(x) < 1e150 ? x : 0.25; }

    // Every number of the value, in order, through accessors.
    static std::vector<double> numbers(Obj const & o) {
        using namespace sg;
        std::vector<double> v;
        auto D = [&](size_t i) { return o.d[i % o.d.size()]; };
        auto V = [&](Vector3d const & x) { v.push_back(x.x()); v.push_back(x.y()); v.push_back(x.z()); };
        auto M = [&](Matrix3d const & m) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v.push_back(m(i, j)); };
        switch (o.kind) {
            case O_REGION:
                if (auto p = dynamic_cast<Box const *>(o.region.get())) { for (double x : {p->getLon().getA().asRadians(), p->getLon().getB().asRadians(), p->getLat().getA().asRadians(), p->getLat().getB().asRadians()}) v.push_back(x); }
                else if (auto p = dynamic_cast<Circle const *>(o.region.get())) { V(p->getCenter()); v.push_back(p->getSquaredChordLength()); }
                else if (auto p = dynamic_cast<Ellipse const *>(o.region.get())) { M(p->getTransformMatrix()); v.push_back(p->getAlpha().asRadians()); v.push_back(p->getBeta().asRadians()); }
                else if (auto p = dynamic_cast<ConvexPolygon const *>(o.region.get())) for (auto const & x : p->getVertices()) V(x);
                break;
            case O_LON: { auto i = NormalizedAngleInterval(NormalizedAngle(fin(D(0))), NormalizedAngle(fin(D(1)))); v = {i.getA().asRadians(), i.getB().asRadians()}; break; }
            case O_LAT: { auto i = AngleInterval::fromRadians(D(0), D(1)); v = {i.getA().asRadians(), i.getB().asRadians()}; break; }
            case O_ANGLE: v = {D(0)}; break;
            case O_NANGLE: v = {NormalizedAngle(fin(D(0))).asRadians()}; break;
            case O_LONLAT: { auto p = LonLat::fromRadians(fin(D(0)), std::atan(D(1))); v = {p.getLon().asRadians(), p.getLat().asRadians()}; break; }
            case O_VEC: v = {D(0), D(1), D(2)}; break;
            case O_UVEC: V(UnitVector3d(fin(D(0)), fin(D(1)), 1.0)); break;
            case O_MAT: M(Matrix3d(D(0), D(1), D(2), D(3), D(4), D(5), D(6), D(7), D(8))); break;
            case O_I1: v = {D(0), D(1)}; break;
            case O_BOX3: { Box3d b(Interval1d(D(0), D(1)), Interval1d(D(2), D(3)), Interval1d(D(4), D(5))); v = {b.x().getA(), b.x().getB(), b.y().getA(), b.y().getB(), b.z().getA(), b.z().getB()}; break; }
        }
        return v;
    }
    // Numbers in a printed text (inf and nan included).
    static std::vector<double> parse(std::string const & t) {
        std::vector<double> v;
        for (size_t i = 0; i < t.size();) {
            if (t[i] == '"') { size_t e = t.find('"', i + 1); if (e == std::string::npos) break; i = e + 1; continue; }
            if (std::isdigit((unsigned char)t[i]) || t[i] == '-' || t[i] == '+' || t[i] == 'i' || t[i] == 'n') {
                char * e; double x = std::strtod(t.c_str() + i, &e);
                if (e != t.c_str() + i) { v.push_back(x); i = e - t.c_str(); continue; }
            }
            ++i;
        }
        return v;
    }
    static bool bitsEqual(double a, double b) { return bits(a) == bits(b) || (a != a && b != b); }

    struct Fmt { std::ios_base::fmtflags flags; std::streamsize prec; char fill; int loc; std::ios_base::iostate mask; bool tied; };
    static Fmt fmtOf(Op const & op) {
        Fmt f;
        u64 x = op.arg(0);
        f.flags = std::ios_base::dec | std::ios_base::skipws;
        if (x & 1) {
            static std::ios_base::fmtflags const base[] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct}, fl[] = {{}, std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific}, ad[] = {{}, std::ios_base::left, std::ios_base::right, std::ios_base::internal};
            f.flags = base[(x >> 1) % 3] | fl[(x >> 8) % 4] | ad[(x >> 16) % 4];
            if (x >> 24 & 1) f.flags |= std::ios_base::showbase;
            if (x >> 25 & 1) f.flags |= std::ios_base::uppercase;
            if (x >> 26 & 1) f.flags |= std::ios_base::showpos;
            if (x >> 27 & 1) f.flags |= std::ios_base::showpoint;
            if (x >> 28 & 1) f.flags |= std::ios_base::boolalpha;
        }
        if (op.arg(5)) f.flags |= std::ios_base::unitbuf;
        f.prec = x & 1 ? op.arg(1) : 6;
        f.fill = " *0#"[op.arg(2) % 4];
        f.loc = op.arg(3) % 3;
        std::ios_base::iostate const masks[] = {std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit, std::ios_base::goodbit};
        f.mask = masks[op.arg(4) % 8];
        if (op.arg(5)) f.mask = std::ios_base::goodbit;   // libstdc++ terminates when a throwing stream's final flush fails
        f.tied = op.arg(6) & 1;
        return f;
    }
    static std::locale const & grouped() { static std::locale l(std::locale::classic(), new Grouping); return l; }
    static void apply(std::ostream & os, Fmt const & f) {
        os.flags(f.flags); os.precision(f.prec); os.fill(f.fill);
        if (f.loc == 1) os.imbue(grouped());
    }
    static bool sameFmt(std::ostream & os, Fmt const & f) {
        return os.flags() == f.flags && os.precision() == f.prec && os.fill() == f.fill && os.exceptions() == f.mask && os.getloc() == (f.loc == 1 ? grouped() : std::locale());
    }
    // The text of one object under settings f and a width, on a new, healthy stream.
    static std::string reference(Obj const & o, Fmt const & f, u64 width) {
        Sink s(Sink::HEALTHY, 0, 0);
        std::ostream os(&s);
        apply(os, f);
        os.flags(f.flags & ~std::ios_base::unitbuf);
        os.width(width);
        print(os, o);
        return s.got;
    }
    static u64 objHash(Obj const & o) {
        Hash h; h.u(o.kind);
        if (o.region) value(h, *o.region);
        if (o.rs) put(h, *o.rs);
        for (double x : o.d) h.d(x);
        return h.h;
    }

    void execute(Plan const & plan, Run & run) override {
        std::vector<Obj> objs;
        std::vector<u64> hashes;
        Fmt f = fmtOf({"stream", {}});
        Op sinkOp{"sink", {}};
        std::vector<Op> prints;
        for (auto const & op : plan.ops) {
            if (op.name == "obj" && !op.a.empty()) {
                Obj o; o.kind = op.arg(0) % O_KINDS;
                if (o.kind == O_REGION) { o.region = tryBuild(Spec(op.a.begin() + 1, op.a.end())); if (!o.region || typeOf(*o.region) == 'u' || typeOf(*o.region) == 'i') continue; }
                else if (o.kind == O_RS) { o.rs.reset(new sg::RangeSet); for (size_t i = 1; i + 1 < op.a.size(); i += 2) o.rs->insert(op.a[i], op.a[i + 1]); }
                else for (size_t i = 1; i < op.a.size(); ++i) o.d.push_back(dbl(op.a[i]));
                if (o.kind != O_REGION && o.kind != O_RS && o.d.empty()) o.d.push_back(0.5);
                objs.push_back(std::move(o));
                hashes.push_back(objHash(objs.back()));
                // With default settings the text is complete: it holds every number exactly.
                std::string t = reference(objs.back(), fmtOf({"stream", {}}), 0);
                if (objs.back().kind != O_RS) {
                    auto a = parse(t), b = numbers(objs.back());
                    bool ok = a.size() == b.size();
                    for (size_t i = 0; ok && i < a.size(); ++i) ok = bitsEqual(a[i], b[i]);
                    if (!ok) run.fail("incomplete-text", "the printed text does not hold exactly the numbers of the value: %s", t.substr(0, 300).c_str());
                } else {
                    std::vector<u64> a, b;
                    for (size_t i = t.find(':'); i < t.size();) { if (std::isdigit((unsigned char)t[i])) { char * e; a.push_back(std::strtoull(t.c_str() + i, &e, 10)); i = e - t.c_str(); } else ++i; }
                    for (auto r : *objs.back().rs) { b.push_back(std::get<0>(r)); b.push_back(std::get<1>(r)); }
                    if (a != b) run.fail("incomplete-text", "the printed text does not hold exactly the ranges of the set: %s", t.substr(0, 300).c_str());
                }
                run.event("object kind %llu: %s", (unsigned long long)objs.back().kind, t.c_str());
            }
            else if (op.name == "stream") { f = fmtOf(op); prints.clear(); }
            else if (op.name == "sink") sinkOp = op;
            else if (op.name == "print") prints.push_back(op);
            else if (op.name == "check" && !objs.empty()) { scenario(run, objs, hashes, f, sinkOp, prints); prints.clear(); }
        }
    }

    void scenario(Run & run, std::vector<Obj> const & objs, std::vector<u64> const & hashes, Fmt const & f, Op const & sinkOp, std::vector<Op> const & prints) {
        ++run.simtime;
        static char const * const names[] = {"fault.none", "fault.sink_full", "fault.sink_throws", "fault.short_write", "fault.transient_error", "fault.buffered_sink_full", "fault.sink_out_of_memory", "fault.sync_fails"};
        Sink sink(Sink::Mode(sinkOp.arg(0) % Sink::MODES), sinkOp.arg(1), sinkOp.arg(2));
        Sink tiedSink(Sink::FULL, 0, 0);
        std::ostream tied(&tiedSink);
        std::ostream os(&sink);
        apply(os, f);
        os.exceptions(f.mask);
        if (f.tied) { os.tie(&tied); }
        std::string want;
        std::string before;
        bool failedBefore = false;
        for (auto const & op : prints) {
            Obj const & o = objs[op.arg(0) % objs.size()];
            u64 width = op.arg(1) % 200;
            std::string t = reference(o, f, width);
            before = want;
            want += t;
            os.width(width);
            bool threw = false;
            u64 gotBefore = sink.got.size();
            bool wasGood = os.good();
            try { print(os, o); }
            catch (SinkError const & e) { threw = true; if (e.code != 7) run.fail("exception-changed", "the sink's exception was altered"); }
            catch (std::ios_base::failure const &) { threw = true; }
            catch (std::bad_alloc const &) { threw = true; }
            catch (std::exception const & e) { run.fail("wrong-exception", "printing threw %s", e.what()); }
            run.event("print %llu: sink has %zu of %zu bytes, state %d, threw %d", (unsigned long long)op.arg(0), sink.got.size(), want.size(), int(os.rdstate()), int(threw));
            std::string seen = sink.got;
            bool buffered = sink.mode == Sink::BUFFERED;
            if (buffered) seen.append(sink.pb(), sink.pn());
            if (seen.size() > want.size() || want.compare(0, seen.size(), seen)) run.fail("not-a-prefix", "what reached the sink is not a prefix of the text: got \"%s\", text \"%s\"", seen.substr(0, 400).c_str(), want.substr(0, 400).c_str());
            bool complete = seen.size() == want.size();
            if (!complete && !os.fail()) run.fail("failure-not-reported", "the sink has %zu of %zu bytes but the stream is good", seen.size(), want.size());
            if (!complete && (f.mask & std::ios_base::badbit) && wasGood && !threw) run.fail("failure-not-reported", "the exception mask was set but nothing was thrown");
            if (threw && !f.mask) run.fail("unexpected-exception", "printing threw although the stream's exception mask is empty");
            if (complete && !sink.fired && os.fail() && !failedBefore) run.fail("spurious-failure", "the sink took everything but the stream failed");
            if (!wasGood && sink.got.size() != gotBefore) run.fail("wrote-after-failure", "a stream that had failed still sent bytes");
            if (!sameFmt(os, f)) run.fail("settings-changed", "printing changed the formatting settings of the caller's stream");
            if (os.width() != 0 && u64(os.width()) != width) run.fail("settings-changed", "printing left width %d", int(os.width()));
            if (os.rdbuf() != &sink || os.tie() != (f.tied ? &tied : nullptr)) run.fail("settings-changed", "printing changed the stream's buffer or tie");
            if (objHash(o) != hashes[&o - objs.data()]) run.fail("object-changed", "printing changed the object");
            if (sink.fired) { failedBefore = true; run.nontrivial = true; }
            run.count("probe.prints");
        }
        if (sink.fired) run.count(names[sink.mode]);
        Hash st; st.u(sink.mode); st.u(sink.got.size()); st.u(want.size()); run.state(st.h);
        // A healthy stream, and the same stream with a healthy sink, give the complete text.
        Sink good(Sink::HEALTHY, 0, 0);
        os.exceptions(std::ios_base::goodbit);
        os.rdbuf(&good);       // clears the state
        if (f.tied) os.tie(nullptr);
        os.flags(os.flags() & ~std::ios_base::unitbuf);
        for (auto const & op : prints) { os.width(op.arg(1) % 200); print(os, objs[op.arg(0) % objs.size()]); }
        if (good.got != want) run.fail("retry-differs", "printing again to a healthy sink gives \"%s\" instead of \"%s\"", good.got.substr(0, 400).c_str(), want.substr(0, 400).c_str());
        std::string again;
        for (auto const & op : prints) again += reference(objs[op.arg(0) % objs.size()], f, op.arg(1) % 200);
        if (again != want) run.fail("history-dependent", "the text of a value changed after failed prints");
        run.log.s(want);
    }
};

WorldInfo info = {"C10", [] { return std::unique_ptr<World>(new Streams); },
    "a run prints sequences of up to 5 values of 12 kinds to streams with random formatting settings and exception masks over a sink failing in one of 7 ways at a random position; non-trivial: the sink failed during a print",
    "all stream insertion operators and libstdc++ ostream, with AddressSanitizer",
    "sink (simulated device), locale facet", "distinct (sink fault, bytes accepted, text length)", 6000, 200000, nullptr};
RegisterWorld reg(&info);

} // namespace
