// Variable-length structures: random histories against plain C++ values and a reference encoder.
#include "fields.hpp"
using namespace vt;
using namespace vrtgen::packing;
static void w32(Bytes& b, u64 v) { for (int s = 24; s >= 0; s -= 8) b.push_back(uint8_t(v >> s)); }
static void wn(Bytes& b, u64 v, int n) { for (int s = 8 * (n - 1); s >= 0; s -= 8) b.push_back(uint8_t(v >> s)); }
static std::string list(const std::vector<u64>& v) { std::string s = "{"; for (auto x : v) s += std::to_string(x) + ","; return s + "}"; }
static int len(Rng& g, int cap) { switch (g(5)) { case 0: return 0; case 1: return g(3) ? 1 : std::min(cap, 2); case 2: return g(std::min(cap, 8) + 1); case 3: return g(20) ? g(std::min(cap, 40)) : cap; default: return g(std::min(cap, 5) + 1); } }

struct Op2 { int kind; std::vector<u64> v; };   // meaning of kind is the model's business

struct GpsM {
    GPS_ASCII t; u64 oui = 0; Bytes text;
    static constexpr int kinds = 5; static const char* name() { return "GPS ASCII"; }
    static Op2 gen(Rng& g) { Op2 o{(int)g(5), {}}; if (o.kind == 0) o.v.push_back(g.value(24)); if (o.kind == 1) for (int i = 0, n = len(g, 300); i < n; ++i) o.v.push_back(1 + g(255)); return o; }
    std::string show(const Op2& o) { static const char* k[] = {"manufacturer", "sentences", "repack", "copy", "nothing"}; return k[o.kind] + list(o.v); }
    void apply(const Op2& o) {
        if (o.kind == 0) { oui = o.v[0]; t.manufacturer_oui(oui); }
        if (o.kind == 1) { Bytes s(o.v.begin(), o.v.end()); t.ascii_sentences(s); text = s; while (text.size() % 4) text.push_back(0); }
        if (o.kind == 2) { Bytes b(t.size()); t.pack_into(b.data()); GPS_ASCII n; n.unpack_from(b.data()); t = n; }
        if (o.kind == 3) { GPS_ASCII n(t); t = n; }
    }
    Bytes enc() { Bytes b; w32(b, oui); w32(b, text.size() / 4); b.insert(b.end(), text.begin(), text.end()); return b; }
    std::string diff() {
        if (t.manufacturer_oui() != oui) return "manufacturer reads back wrong";
        if (t.number_of_words() != text.size() / 4) return "number of words is " + std::to_string(t.number_of_words()) + " for " + std::to_string(text.size()) + " bytes of text";
        if (Bytes(t.ascii_sentences().begin(), t.ascii_sentences().end()) != text) return "sentences read back wrong";
        return "";
    }
};

struct CalM {
    ContextAssociationLists t; std::vector<uint32_t> l[5];
    static const char* name() { return "Context association lists"; }
    static Op2 gen(Rng& g) {
        Op2 o{(int)g(8), {}}; int cap = o.kind < 2 ? 511 : 600;
        if (o.kind < 5) for (int i = 0, n = len(g, cap); i < n; ++i) o.v.push_back(g.value(32));
        if (o.kind == 5) o.v = {g(3), g.value(32)};
        return o;
    }
    std::string show(const Op2& o) { static const char* k[] = {"source", "system", "vector", "async", "async+tags", "append to list", "repack", "copy"}; return k[o.kind] + list(o.v); }
    void apply(const Op2& o) {
        std::vector<uint32_t> v(o.v.begin(), o.v.end());
        switch (o.kind) {
            case 0: t.source_list(v); l[0] = v; break;
            case 1: t.system_list(v); l[1] = v; break;
            case 2: t.vector_component_list(v); l[2] = v; break;
            case 3: t.async_channel_list(v); t.async_channel_tag_list({}); l[3] = v; l[4].clear(); break;
            case 4: { t.async_channel_list(v); l[3] = v; for (auto& x : v) x = ~x; t.async_channel_tag_list(v); l[4] = v; break; }
            case 5: { int i = o.v[0]; if (l[i].size() > 500) break; l[i].push_back(o.v[1]);
                      (i == 0 ? t.source_list() : i == 1 ? t.system_list() : t.vector_component_list()).push_back(o.v[1]); break; }
            case 6: { Bytes b(t.size()); t.pack_into(b.data()); auto n = std::make_unique<ContextAssociationLists>(); n->unpack_from(b.data()); t = *n; break; }
            default: { ContextAssociationLists n(t); t = n; }
        }
    }
    Bytes enc() {
        Bytes b; w32(b, l[0].size() << 16 | l[1].size()); w32(b, l[2].size() << 16 | (l[4].empty() ? 0 : 0x8000) | l[3].size());
        for (auto& x : l) for (auto v : x) w32(b, v);
        return b;
    }
    std::string diff() {
        const ContextAssociationLists& c = t;
        if (c.source_list() != l[0]) return "source list reads back wrong";
        if (c.system_list() != l[1]) return "system list reads back wrong";
        if (c.vector_component_list() != l[2]) return "vector component list reads back wrong";
        if (c.async_channel_list() != l[3]) return "asynchronous channel list reads back wrong";
        if (c.async_channel_tag_list() != l[4]) return "asynchronous channel tag list reads back wrong";
        return "";
    }
    std::string packed_diff() {
        if (t.source_list_size() != l[0].size() || t.system_list_size() != l[1].size() || t.vector_component_list_size() != l[2].size() ||
            t.async_channel_list_size() != l[3].size() || t.async_channel_tag_list_enable() != !l[4].empty()) return "list counts wrong after packing";
        return "";
    }
};

template <class E> struct IdxM {
    IndexList<E> t; std::vector<E> l; u64 total = 0, es = 0, count = 0;
    static const char* name() { return sizeof(E) == 1 ? "Index list of 8-bit entries" : sizeof(E) == 2 ? "Index list of 16-bit entries" : "Index list of 32-bit entries"; }
    static Op2 gen(Rng& g) { Op2 o{(int)g(4), {}}; if (o.kind < 2) for (int i = 0, n = o.kind ? 1 : len(g, 600); i < n; ++i) o.v.push_back(g.value(8 * sizeof(E))); return o; }
    std::string show(const Op2& o) { static const char* k[] = {"entries", "append", "repack", "copy"}; return k[o.kind] + list(o.v); }
    void meta() { count = l.size(); es = sizeof(E) == 4 ? 4 : sizeof(E); total = 2 + (l.size() * sizeof(E) + 3) / 4; t.num_entries(count); t.total_size(total); t.entry_size((EntrySize)es); }
    void apply(const Op2& o) {
        if (o.kind == 0) { l.assign(o.v.begin(), o.v.end()); t.entries(l); meta(); }
        if (o.kind == 1) { l.push_back(o.v[0]); t.entries().push_back(o.v[0]); meta(); }
        if (o.kind == 2) { Bytes b(t.size()); t.pack_into(b.data()); auto n = std::make_unique<IndexList<E>>(); n->unpack_from(b.data()); t = *n; }
        if (o.kind == 3) { IndexList<E> n(t); t = n; }
    }
    Bytes enc() { Bytes b; w32(b, total); w32(b, es << 28 | count); for (auto v : l) wn(b, v, sizeof(E)); while (b.size() % 4) b.push_back(0); return b; }
    std::string diff() {
        const auto& c = t;
        if (c.total_size() != total || num(c.entry_size()) != es || c.num_entries() != count) return "size words read back wrong";
        if (c.entries() != l) return "entries read back wrong";
        return "";
    }
};

struct Rec { uint32_t a = 0, b = 0; bool operator==(const Rec&) const = default; std::size_t size() const { return 8; }
    void pack_into(uint8_t* p) const { for (int i = 0; i < 4; ++i) { p[i] = a >> (24 - 8 * i); p[4 + i] = b >> (24 - 8 * i); } }
    void unpack_from(const uint8_t* p) { a = b = 0; for (int i = 0; i < 4; ++i) { a = a << 8 | p[i]; b = b << 8 | p[4 + i]; } } };
struct SssM {
    SectorStepScan<Rec> t; std::vector<Rec> l; u64 as = 0, hs = 0, nw = 0, cif = 0;
    static const char* name() { return "Sector step scan"; }
    static Op2 gen(Rng& g) {
        Op2 o{(int)g(7), {}};
        if (o.kind == 0) for (int i = 0, n = 2 * len(g, 100); i < n; ++i) o.v.push_back(g.value(32));
        if (o.kind == 1) o.v = {g.value(32)}; if (o.kind == 2) o.v = {g.value(8)}; if (o.kind == 3) o.v = {g.value(12)};
        if (o.kind == 4) o.v = {g(2), g(2)};
        return o;
    }
    std::string show(const Op2& o) { static const char* k[] = {"records", "array size", "header size", "words per record", "subfield indicator", "repack", "copy"}; return k[o.kind] + list(o.v); }
    void apply(const Op2& o) {
        switch (o.kind) {
            case 0: l.clear(); for (size_t i = 0; i < o.v.size(); i += 2) l.push_back({(uint32_t)o.v[i], (uint32_t)o.v[i + 1]}); t.records(l); t.num_records(l.size()); break;
            case 1: as = o.v[0]; t.array_size(as); break;
            case 2: hs = o.v[0]; t.header_size(hs); break;
            case 3: nw = o.v[0]; t.num_words_record(nw); break;
            case 4: if (o.v[0]) { t.subfield_cif().sector_number(o.v[1]); cif = (cif & ~0x80000000ull) | (o.v[1] << 31); }
                    else { t.subfield_cif().time_4(o.v[1]); cif = (cif & ~(1ull << 20)) | (o.v[1] << 20); } break;
            case 5: { Bytes b(t.size()); t.pack_into(b.data()); auto n = std::make_unique<SectorStepScan<Rec>>(); n->unpack_from(b.data()); t = *n; break; }
            default: { SectorStepScan<Rec> n(t); t = n; }
        }
    }
    Bytes enc() { Bytes b; w32(b, as); w32(b, hs << 24 | nw << 12 | l.size()); w32(b, cif); for (auto& r : l) { w32(b, r.a); w32(b, r.b); } return b; }
    std::string diff() {
        const auto& c = t;
        if (c.array_size() != as || c.header_size() != hs || c.num_words_record() != nw || c.num_records() != l.size()) return "size words read back wrong";
        if (!(c.records() == l)) return "records read back wrong";
        if (c.subfield_cif().sector_number() != (cif >> 31 & 1) || c.subfield_cif().time_4() != (cif >> 20 & 1)) return "subfield indicators read back wrong";
        return "";
    }
};

template <class M> bool run(const std::vector<Op2>& ops, std::string& why) {
    auto m = std::make_unique<M>();
    for (size_t i = 0; i <= ops.size(); ++i) {
        if (i) m->apply(ops[i - 1]);
        std::string at = i ? " after " + m->show(ops[i - 1]) : " when fresh";
        Bytes want = m->enc();
        why = m->diff();
        if (why.empty() && m->t.size() != want.size()) why = "size() is " + std::to_string(m->t.size()) + ", expected " + std::to_string(want.size());
        if (why.empty()) {
            Bytes out(want.size() + 16, 0xEE);
            m->t.pack_into(out.data() + 8);
            if (Bytes(out.begin() + 8, out.end() - 8) != want) why = "packed " + hex(Bytes(out.begin() + 8, out.end() - 8)) + ", expected " + hex(want);
            for (int k = 0; k < 8; ++k) if (out[k] != 0xEE || out[want.size() + 8 + k] != 0xEE) why = "pack_into writes outside its bytes";
            if constexpr (requires { m->packed_diff(); }) if (why.empty()) why = m->packed_diff();
        }
        if (why.empty()) {
            // parse exactly these bytes over whatever an object held before
            auto b = std::make_unique<uint8_t[]>(want.size());
            std::memcpy(b.get(), want.data(), want.size());
            M other; if (i) other.apply(ops[0]);
            other.t.unpack_from(b.get());
            auto keep = m->t; m->t = other.t; why = m->diff(); if (!why.empty()) why = "parsed from bytes: " + why;
            m->t = keep;
        }
        if (!why.empty()) { why = std::string(M::name()) + ": " + why + at; return false; }
    }
    return true;
}
static long cases = 0, nontrivial = 0, nops = 0; static std::vector<std::string> samples;
template <class M> bool explore(u64 seed, long it) {
    for (long i = 0; i < it; ++i) {
        Rng g{std::mt19937_64(seed * 7919 + i)};
        std::vector<Op2> ops; for (int k = 0, n = 1 + g(8); k < n; ++k) ops.push_back(M::gen(g));
        std::string why; bool nt = false; for (auto& o : ops) nt |= o.v.size() > 1;
        ++cases; nontrivial += nt; nops += ops.size();
        if (i == 1) { M m; std::string s = M::name(); for (auto& o : ops) s += "; " + m.show(o).substr(0, 120); samples.push_back(s); }
        if (run<M>(ops, why)) continue;
        for (bool again = true; again;) {
            again = false;
            for (size_t k = 0; k < ops.size() && !again; ++k) {
                auto c = ops; c.erase(c.begin() + k); if (!run<M>(c, why)) { ops = c; again = true; break; }
                while (ops[k].v.size() > 2) { c = ops; c[k].v.resize((c[k].v.size() / 4) * 2); if (run<M>(c, why)) { c = ops; c[k].v.resize(c[k].v.size() - 2); if (run<M>(c, why)) break; } ops = c; }
            }
        }
        run<M>(ops, why); M m; std::string s; for (auto& o : ops) s += m.show(o) + "; ";
        printf("FAIL %s [history: %s]\n", why.c_str(), s.c_str());
        return false;
    }
    return true;
}
int main(int, char** argv) {
    u64 seed = strtoull(argv[1], 0, 10); long it = atol(argv[2]);
    bool ok = explore<GpsM>(seed, it) & explore<CalM>(seed + 1, it) & explore<IdxM<uint8_t>>(seed + 2, it) & explore<IdxM<uint16_t>>(seed + 3, it)
        & explore<IdxM<uint32_t>>(seed + 4, it) & explore<SssM>(seed + 5, it);
    printf("STATS %ld %ld %ld\n", cases, nontrivial, nops);
    for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
    return ok ? 0 : 1;
}
