// C03: nodes running different builds of the library exchange regions over a
// simulated network that drops, duplicates, delays, reorders and partitions.
#include "node.h"
#include "grammar.h"
#include <algorithm>
#include <map>

extern sim::NodeApi const node_0, node_1, node_2, node_3, node_4, node_5;

using namespace sim;

namespace {

#include "golden.inc"

NodeApi const * const NODES[] = {&node_0, &node_1, &node_2, &node_3, &node_4, &node_5};
constexpr u64 NN = 6;

struct Wire : World {
    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        if (r.chance(0.02)) {        // records of more than 64 KB
            u64 at = r.below(NN);
            Spec s = genBulk(r); s.insert(s.begin(), at); p.add("make", s);
            if (r.chance(0.5)) { GenOptions o; Spec t = genRegion(r, o); t.insert(t.begin(), at); p.add("make", t); p.add("compose", {at, r.below(2), r.below(2), r.below(2)}); }
            for (int i = r.range(2, 5); i > 0; --i) {
                if (r.chance(0.2)) p.add("crash", {r.below(NN)});
                p.add("send", {r.next(), r.below(NN), r.chance(0.5) ? r.below(9) : 0, 0, 0, r.next()});
            }
            p.add("tick", {20});
            return p;
        }
        GenOptions o;
        o.maxDepth = r.range(0, 4); o.pCompound = r.real(0, 0.7); o.maxHull = r.chance(0.3) ? 40 : 10;
        genSizes(r, o, 300, 3000, r.chance(0.3) ? 300 : 40);
        int n = r.range(4, thorough ? 60 : 24);
        double loss = r.chance(0.5) ? r.real(0, 0.5) : 0, dup = r.chance(0.5) ? r.real(0, 0.4) : 0, delay = r.chance(0.7) ? r.real(0, 40) : 0;
        for (int i = 0; i < n; ++i) {
            switch (i < 2 ? 0 : r.below(10)) {
                case 0: case 1: { Spec s = genRegion(r, o); s.insert(s.begin(), r.below(NN)); p.add("make", s); break; }
                case 2: p.add("golden", {r.below(NN), r.next()}); break;
                case 3: p.add("compose", {r.below(NN), r.next(), r.next(), r.below(2)}); break;
                case 4: p.add("crash", {r.below(NN)}); break;
                case 5: p.add(r.chance(0.5) ? "partition" : "heal", {r.below(NN), r.below(NN)}); break;
                case 6: p.add("tick", {r.range(1, 20)}); break;
                default: p.add("send", {r.next(), r.below(NN), u64(r.real() * delay), r.chance(loss) ? u64(1) : u64(0), r.chance(dup) ? 1 + r.below(30) : u64(0), r.next()});
            }
        }
        p.add("settle", {r.next()});
        return p;
    }
    std::vector<Op> simpler(Op const & op) override {
        std::vector<Op> out;
        if (op.name == "make") { for (auto & s : simplerSpecs(Spec(op.a.begin() + 1, op.a.end()))) { s.insert(s.begin(), op.a[0]); out.push_back({"make", s}); } return out; }
        for (size_t i = 0; i < op.a.size(); ++i) for (u64 v : {u64(0), u64(1)}) if (op.a[i] > v) { Op t = op; t.a[i] = v; out.push_back(t); break; }
        return out;
    }

    struct Item { View view; Spec spec; };                      // a distinct region in the system
    struct Held { u64 handle; u64 item; };
    struct Msg { u64 at, seq, to, item, from, how; Bytes bytes; };
    std::vector<Item> items;
    std::vector<Held> mem[NN];
    std::vector<Msg> net;
    bool cut[NN][NN] = {};
    u64 now = 0, seq = 0;
    Run * run = nullptr;

    // A node's account of a region must be the system-wide one.
    void agree(u64 node, u64 handle, u64 item, Bytes const & wire, char const * what) {
        View v;
        sut([&] { NODES[node]->view(handle, v); });
        Item const & it = items[item];
        char const * nm = NODES[node]->name;
        if (v.bytes != wire) run->fail("re-encode", "%s: node %s re-encodes a '%c' of %zu bytes differently", what, nm, it.view.type, wire.size());
        if (v.type != it.view.type) run->fail("type", "%s: node %s sees a '%c' where the sender had a '%c'", what, nm, v.type, it.view.type);
        if (v.value != it.view.value) run->fail("value", "%s: node %s sees other fields of a '%c' than its maker", what, nm, v.type);
        if (v.answers != it.view.answers) run->fail("answers", "%s: node %s answers queries on a '%c' differently than its maker", what, nm, v.type);
        std::string why;
        if (!sut([&] { return NODES[node]->wireMatches(handle, wire.data(), wire.size(), why); })) run->fail("format", "%s: node %s: %s", what, nm, why.c_str());
        if (!it.spec.empty() && !sut([&] { return NODES[node]->equalToSpec(handle, it.spec); })) run->fail("not-equal", "%s: node %s: a '%c' received differs from the one it makes itself", what, nm, v.type);
    }
    u64 newItem(u64 node, u64 h, Spec const & s) {
        Item it;
        sut([&] { NODES[node]->view(h, it.view); });
        it.spec = s;
        if (it.view.bytes.size() > 200000) { NODES[node]->forget(h); return ~u64(0); }
        if (!grammar(it.view.bytes.data(), it.view.bytes.size())) run->fail("format", "node %s made an encoding of %zu bytes that does not follow the documented format", NODES[node]->name, it.view.bytes.size());
        items.push_back(it);
        mem[node].push_back({h, items.size() - 1});
        agree(node, h, items.size() - 1, it.view.bytes, "make");
        run->event("node %s holds item %zu ('%c', %zu bytes)", NODES[node]->name, items.size() - 1, it.view.type, it.view.bytes.size());
        run->log.b(it.view.bytes); run->log.u(it.view.answers);
        return items.size() - 1;
    }
    void receive(Msg const & m) {
        // The message buffer is unaligned and exactly as long as the record.
        u64 off = 1 + m.seq % 7;
        std::unique_ptr<std::uint8_t[]> block(new std::uint8_t[off + m.bytes.size()]);
        std::copy(m.bytes.begin(), m.bytes.end(), block.get() + off);
        u64 h = sut([&] { return NODES[m.to]->decode(block.get() + off, m.bytes.size(), int(m.how % 4)); });
        if (!h) run->fail("rejected", "node %s rejects %zu bytes written by node %s", NODES[m.to]->name, m.bytes.size(), NODES[m.from]->name);
        agree(m.to, h, m.item, m.bytes, "receive");
        if (mem[m.to].size() < 24) mem[m.to].push_back({h, m.item}); else NODES[m.to]->forget(h);
        run->event("node %s received item %llu from %s", NODES[m.to]->name, (unsigned long long)m.item, NODES[m.from]->name);
        run->count("probe.messages_received");
        if (m.bytes.size() > 65600 && m.bytes[0] > 'h') run->count(m.bytes[0] == 'p' ? "probe.polygons_over_64k" : "probe.compounds_over_64k");
        if (m.to != m.from) run->nontrivial = true;
        Hash st; st.u(m.to); st.u(m.from); st.u(items[m.item].view.type); st.u(m.bytes.size()); run->state(st.h);
    }
    void advance(u64 t) {
        u64 end = now + t;
        for (;;) {
            size_t best = net.size();
            for (size_t i = 0; i < net.size(); ++i) if (net[i].at <= end && (best == net.size() || net[i].at < net[best].at || (net[i].at == net[best].at && net[i].seq < net[best].seq))) best = i;
            if (best == net.size()) break;
            Msg m = net[best];
            net.erase(net.begin() + best);
            now = std::max(now, m.at);
            if (cut[m.from][m.to]) { run->count("fault.partitioned"); continue; }
            receive(m);
        }
        now = end;
        run->simtime += t;
    }
    void send(u64 from, u64 which, u64 to, u64 delay, u64 how) {
        Held const & h = mem[from][which];
        View v;
        sut([&] { NODES[from]->view(h.handle, v); });       // encoded at the time it is sent
        net.push_back({now + delay, ++seq, to, h.item, from, how, v.bytes});
    }

    void execute(Plan const & plan, Run & r) override {
        run = &r;
        for (auto const & op : plan.ops) {
            u64 a = op.arg(0);
            if (op.name == "make" && op.a.size() > 1) {
                Spec s(op.a.begin() + 1, op.a.end());
                u64 h = sut([&] { return NODES[a % NN]->make(s); });
                if (h) newItem(a % NN, h, s);
            } else if (op.name == "golden") {
                // A record written by the earliest version of the library.
                char const * hex = GOLDEN[op.arg(1) % (sizeof GOLDEN / sizeof GOLDEN[0])];
                Bytes b;
                for (char const * c = hex; *c; c += 2) { char t[3] = {c[0], c[1], 0}; b.push_back(std::strtoul(t, nullptr, 16)); }
                u64 h = sut([&] { return NODES[a % NN]->decode(b.data(), b.size(), 0); });
                if (!h) r.fail("golden-rejected", "node %s rejects a '%c' record of %zu bytes written by an earlier version", NODES[a % NN]->name, b[0], b.size());
                u64 it = newItem(a % NN, h, {});
                if (it != ~u64(0) && items[it].view.bytes != b) r.fail("golden-changed", "node %s re-encodes a '%c' record of an earlier version differently", NODES[a % NN]->name, b[0]);
                r.count("probe.golden_records");
            } else if (op.name == "compose") {
                auto & m = mem[a % NN];
                if (m.empty()) continue;
                Held x = m[op.arg(1) % m.size()], y = m[op.arg(2) % m.size()];
                u64 h = sut([&] { return NODES[a % NN]->compose(x.handle, y.handle, int(op.arg(3) & 1)); });
                // The reference form of the compound: code, length, operand, length, operand.
                Bytes want{std::uint8_t(op.arg(3) & 1 ? 'u' : 'i')};
                for (u64 i : {x.item, y.item}) { Bytes const & o = items[i].view.bytes; for (int k = 0; k < 8; ++k) want.push_back(u64(o.size()) >> (8 * k)); want.insert(want.end(), o.begin(), o.end()); }
                u64 it = newItem(a % NN, h, {});
                if (it != ~u64(0) && items[it].view.bytes != want) r.fail("format", "node %s encodes a compound differently from the documented form", NODES[a % NN]->name);
            } else if (op.name == "crash") {
                // Memory is lost; the node restarts from the records in its store.
                r.count("fault.crash_and_restart");
                auto old = mem[a % NN];
                std::vector<Bytes> store;
                for (auto & h : old) { View v; NODES[a % NN]->view(h.handle, v); store.push_back(v.bytes); }
                NODES[a % NN]->forget(0);
                mem[a % NN].clear();
                for (size_t i = 0; i < old.size(); ++i) receive({now, ++seq, a % NN, old[i].item, a % NN, i, store[i]});
            } else if (op.name == "partition" || op.name == "heal") { u64 b = op.arg(1) % NN; bool c = op.name == "partition"; cut[a % NN][b] = cut[b][a % NN] = c && a % NN != b; }
            else if (op.name == "tick") advance(a % 1000);
            else if (op.name == "send") {
                std::vector<u64> full;
                for (u64 i = 0; i < NN; ++i) if (!mem[i].empty()) full.push_back(i);
                if (full.empty()) continue;
                u64 from = full[a % full.size()], w = (a >> 8) % mem[from].size();
                if (op.arg(3)) { r.count("fault.message_lost"); continue; }
                if (op.arg(2)) r.count("fault.message_delayed");
                send(from, w, op.arg(1) % NN, op.arg(2) % 1000, op.arg(5));
                if (op.arg(4)) { r.count("fault.message_duplicated"); send(from, w, op.arg(1) % NN, op.arg(4) % 1000, op.arg(5) + 1); }
                if (!op.arg(2)) advance(1);
            } else if (op.name == "settle") {
                // Faults stop: everything pending arrives, and every node gets every item.
                for (auto & x : cut) for (auto & y : x) y = false;
                advance(2000);
                for (u64 n = 0; n < NN; ++n) {
                    auto cur = mem[n];
                    for (size_t i = 0; i < cur.size() && i < 4; ++i) for (u64 to = 0; to < NN; ++to) if (to != n && (mix(a + n * 7 + i) >> to & 1)) send(n, i, to, mix(a + to + i) % 50, a >> 8);
                }
                advance(100);
            }
        }
    }
};

WorldInfo info = {"C03", [] { return std::unique_ptr<World>(new Wire); },
    "a run is an exchange of region records between 6 nodes, each a complete build of the library with other options, over a network with loss, duplication, delay, reordering, partitions and node restarts; every receipt is compared in bytes, fields, about 200 query answers and against an independent reader of the format; non-trivial: a message crossed between two builds",
    "six builds of the whole library (clang and gcc, -O0 to -O3, with and without optimised codec paths and SIMD)",
    "network, clock, node crash and restart (simulated)", "distinct (writer build, reader build, type, record size)", 2000, 60000, nullptr};
RegisterWorld reg(&info);

} // namespace
