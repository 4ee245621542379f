// C03 checksums and hashes, C04 buffers and records.
#include "comp.h"
#include "crc32.h"
#include "internal_helper.h"
#include "murmurhash3.h"

using namespace jungle;
namespace vh {

// ------------------------------------------------------------------- C03
// Independent bit-by-bit / by-the-definition versions.
static uint32_t refCrc(const std::string& d, uint32_t prev) {
    uint32_t c = ~prev;
    for (unsigned char b : d) {
        c ^= b;
        for (int i = 0; i < 8; ++i) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1;
    }
    return ~c;
}
static uint32_t le32(const std::string& d, size_t o, size_t n = 4) { uint32_t v = 0; for (size_t i = 0; i < n; ++i) v |= (uint32_t)(uint8_t)d[o + i] << (8 * i); return v; }
static uint64_t le64(const std::string& d, size_t o, size_t n = 8) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) v |= (uint64_t)(uint8_t)d[o + i] << (8 * i); return v; }
static uint32_t rl32(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint64_t rl64(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
static uint32_t fm32(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; return h ^ (h >> 16); }
static uint64_t fm64(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; return k ^ (k >> 33); }
static uint32_t refM32(const std::string& d, uint32_t seed) {
    uint32_t h = seed;
    auto k_ = [](uint32_t k) { return rl32(k * 0xcc9e2d51u, 15) * 0x1b873593u; };
    size_t i = 0;
    for (; i + 4 <= d.size(); i += 4) h = rl32(h ^ k_(le32(d, i)), 13) * 5 + 0xe6546b64;
    if (d.size() - i) h ^= k_(le32(d, i, d.size() - i));
    return fm32(h ^ (uint32_t)d.size());
}
static void refM128_64(const std::string& d, uint32_t seed, uint64_t* out) {
    uint64_t h1 = seed, h2 = seed;
    const uint64_t c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
    size_t i = 0;
    for (; i + 16 <= d.size(); i += 16) {
        h1 ^= rl64(le64(d, i) * c1, 31) * c2;
        h1 = (rl64(h1, 27) + h2) * 5 + 0x52dce729;
        h2 ^= rl64(le64(d, i + 8) * c2, 33) * c1;
        h2 = (rl64(h2, 31) + h1) * 5 + 0x38495ab5;
    }
    size_t t = d.size() - i;
    if (t > 8) h2 ^= rl64(le64(d, i + 8, t - 8) * c2, 33) * c1;
    if (t) h1 ^= rl64(le64(d, i, std::min<size_t>(t, 8)) * c1, 31) * c2;
    h1 ^= d.size(); h2 ^= d.size();
    h1 += h2; h2 += h1;
    h1 = fm64(h1); h2 = fm64(h2);
    h1 += h2; h2 += h1;
    out[0] = h1; out[1] = h2;
}
static void refM128_32(const std::string& d, uint32_t seed, uint32_t* out) {
    uint32_t h[4] = {seed, seed, seed, seed};
    const uint32_t c[4] = {0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93};
    const int r1[4] = {15, 16, 17, 18}, r2[4] = {19, 17, 15, 13};
    const uint32_t add[4] = {0x561ccd1b, 0x0bcaa747, 0x96cd1c35, 0x32ac3b17};
    size_t i = 0;
    for (; i + 16 <= d.size(); i += 16)
        for (int j = 0; j < 4; ++j) {
            h[j] ^= rl32(le32(d, i + 4 * j) * c[j], r1[j]) * c[(j + 1) % 4];
            h[j] = (rl32(h[j], r2[j]) + h[(j + 1) % 4]) * 5 + add[j];
        }
    size_t t = d.size() - i;
    for (int j = 3; j >= 0; --j)
        if (t > (size_t)4 * j) h[j] ^= rl32(le32(d, i + 4 * j, std::min<size_t>(4, t - 4 * j)) * c[j], r1[j]) * c[(j + 1) % 4];
    for (int j = 0; j < 4; ++j) h[j] ^= (uint32_t)d.size();
    auto mixall = [&]() { h[0] += h[1] + h[2] + h[3]; h[1] += h[0]; h[2] += h[0]; h[3] += h[0]; };
    mixall();
    for (int j = 0; j < 4; ++j) h[j] = fm32(h[j]);
    mixall();
    memcpy(out, h, 16);
}
static Case genHash(Rng& r, int tier, uint64_t) {
    Case c;
    int n = (int)r.range(1, 12);
    for (int i = 0; i < n; ++i) {
        int64_t len = r.chance(60) ? r.range(0, 70) : r.chance(80) ? r.range(0, 5000) : r.range(0, tier ? 2000000 : 200000);
        // data pattern, length, misalignment, previous value / seed, split
        c.add("h", {(int64_t)r.below(1 << 30), len, (int64_t)r.below(9), r.chance(40) ? 0 : (int64_t)(uint32_t)r.next(), (int64_t)r.below(len + 1), (int64_t)r.below(4)});
    }
    return c;
}
static void runHash(const Case& c, Ctx& x) {
    int n = 0;
    for (auto& o : c.ops) {
        if (o.name != "h") continue;
        int64_t len = std::max<int64_t>(0, o.arg(1));
        std::string d = bytes(o.arg(0), len);
        if (o.arg(5) == 1) for (auto& ch : d) ch |= 0x80;            // high bytes
        if (o.arg(5) == 2) d.assign(len, (char)(o.arg(0) & 0xff));   // runs
        std::string buf(o.arg(2) & 15, '\x77');
        size_t off = buf.size();
        buf += d;
        std::string guard = buf;
        const char* p = buf.data() + off;
        uint32_t seed = (uint32_t)o.arg(3);
        uint32_t rc = refCrc(d, seed);
        uint32_t a = crc32_1(p, len, seed), b = crc32_8(p, len, seed);
        if (a != rc) x.fail("crc32_1", "crc32_1 of %lld bytes (prev %u) is %08x, expected %08x", (long long)len, seed, a, rc);
        if (b != rc) x.fail("crc32_8", "crc32_8 of %lld bytes (prev %u) is %08x, expected %08x", (long long)len, seed, b, rc);
        size_t k = std::min<int64_t>(len, std::max<int64_t>(0, o.arg(4)));
        uint32_t part = crc32_8(p + k, len - k, crc32_8(p, k, seed));
        if (part != rc) x.fail("crc-chain", "checksum in two pieces (%zu + %lld) is %08x, expected %08x", k, (long long)len - (long long)k, part, rc);
        uint32_t l8 = crc32_8_last8(p, len, seed), rl8 = refCrc(d.substr(len - std::min<int64_t>(8, len)), seed);
        if (l8 != rl8) x.fail("crc-last8", "crc32_8_last8 of %lld bytes is %08x, expected %08x", (long long)len, l8, rl8);
        if (len) {
            // every single-bit change is visible
            std::string e = d;
            size_t bit = (size_t)((uint64_t)o.arg(4) * 7919 + o.arg(0)) % (len * 8);
            e[bit / 8] ^= 1 << (bit % 8);
            if (crc32_8(e.data(), len, seed) == b) x.fail("crc-bitflip", "flipping bit %zu of %lld bytes does not change the checksum", bit, (long long)len);
        }
        uint32_t m32 = 0;
        MurmurHash3_x86_32(p, (int)len, seed, &m32);
        if (m32 != refM32(d, seed)) x.fail("murmur32", "MurmurHash3_x86_32 of %lld bytes is %08x, expected %08x", (long long)len, m32, refM32(d, seed));
        uint64_t q[2], rq[2];
        MurmurHash3_x64_128(p, (int)len, seed, q);
        refM128_64(d, seed, rq);
        if (memcmp(q, rq, 16)) x.fail("murmur128", "MurmurHash3_x64_128 of %lld bytes differs from the definition", (long long)len);
        uint32_t w[4], rw[4];
        MurmurHash3_x86_128(p, (int)len, seed, w);
        refM128_32(d, seed, rw);
        if (memcmp(w, rw, 16)) x.fail("murmur128_32", "MurmurHash3_x86_128 of %lld bytes differs from the definition", (long long)len);
        SizedBuf sb(len, (void*)p);
        if (get_murmur_hash_32(sb) != refM32(d, 0)) x.fail("hash32", "get_murmur_hash_32 differs");
        size_t lim = 1 + (size_t)(o.arg(0) % 1000);
        if (get_murmur_hash(sb, lim) != refM32(d, 0) % lim) x.fail("hash-limit", "get_murmur_hash with limit %zu differs", lim);
        refM128_64(d, 0, rq);
        if (get_murmur_hash_64(sb) != rq[0]) x.fail("hash64", "get_murmur_hash_64 differs");
        if (buf != guard) x.fail("modified", "hashing modified the input");
        n += len > 0;
    }
    if (n) x.nontrivial();
}

// ------------------------------------------------------------------- C04
static Case genBuf(Rng& r, int tier, uint64_t) {
    Case c;
    int n = (int)r.range(5, tier ? 80 : 40);
    for (int i = 0; i < n; ++i) {
        int64_t k = r.below(5), l = r.below(5), sd = r.chance(50) ? (int64_t)r.below(4) : (int64_t)r.below(1000);
        int64_t len = r.chance(20) ? 0 : r.chance(60) ? r.range(1, 5) : r.range(1, 300);
        switch (r.weighted({14, 8, 8, 8, 8, 8, 16, 8, 8, 6, 6, 6, 6, 5, 5})) {
        case 0: c.add("alloc", {k, len, sd, (int64_t)r.below(4)}); break;
        case 1: c.add("refer", {k, l}); break;
        case 2: c.add("move", {k, l}); break;
        case 3: c.add("copy", {k, l}); break;
        case 4: c.add("free", {k}); break;
        case 5: c.add("set", {k, len, sd}); break;
        case 6: c.add("cmp", {k, l}); break;
        case 7: c.add("resize", {k, r.range(1, 300)}); break;
        case 8: c.add("cmpx", {(int64_t)r.below(6), (int64_t)r.below(6), (int64_t)r.below(1 << 20), (int64_t)r.below(1 << 20)}); break;
        case 9: c.add("kv", {len, (int64_t)r.below(60), sd, (int64_t)r.below(5)}); break;
        case 10: c.add("rec", {len, (int64_t)r.below(60), (int64_t)r.below(60), sd, (int64_t)r.below(6)}); break;
        case 11: c.add("del", {k, len, sd}); break;
        case 12: c.add("print", {k}); break;
        case 13: c.add("clear", {k}); break;
        case 14: c.add("holder", {k}); break;
        }
    }
    return c;
}
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
static void runBuf(const Case& c, Ctx& x) {
    // Slots: a buffer, its expected bytes, and how its memory is held.
    struct S { SizedBuf b; std::string v; bool own = false; int src = -1; std::string ext; } s[5];
    std::vector<std::string*> keep;
    int n = 0, ncmp = 0;
    auto chk = [&](int i, const char* op) {
        S& e = s[i];
        if (e.b.size != e.v.size()) x.fail("size", "%s: slot %d has size %u, expected %zu", op, i, e.b.size, e.v.size());
        if (e.b.empty() != e.v.empty()) x.fail("empty", "%s: empty() of slot %d is %d", op, i, e.b.empty());
        if (e.b.size && memcmp(e.b.data, e.v.data(), e.v.size())) x.fail("content", "%s: slot %d holds other bytes", op, i);
        if (e.b.size && e.b.toString() != e.v) x.fail("tostring", "%s: toString of slot %d differs", op, i);
        bool fl = e.b.flags & (SizedBufFlags::NEED_TO_FREE | SizedBufFlags::NEED_TO_DELETE);
        if (e.own && !fl) x.fail("owner", "%s: slot %d does not own its memory", op, i);
        if (!e.own && fl) x.fail("owner", "%s: slot %d owns memory it should not", op, i);
    };
    auto drop = [&](int i) {     // forget the contents; anything that refers to it becomes empty
        for (int j = 0; j < 5; ++j) if (s[j].src == i) { s[j].b.clear(); s[j].v.clear(); s[j].src = -1; s[j].own = false; }
        if (s[i].own) { if (!s[i].b.free()) x.fail("free", "free() of an owning buffer returned false"); }
        else { if (s[i].b.free()) x.fail("free", "free() of a non-owning buffer returned true"); s[i].b.clear(); }
        s[i].v.clear(); s[i].own = false; s[i].src = -1;
    };
    for (auto& o : c.ops) {
        int k = (int)(o.arg(0) % 5), l = (int)(o.arg(1) % 5);
        n++;
        if (o.name == "alloc") {
            drop(k);
            std::string d = bytes(o.arg(2), o.arg(1));
            switch (o.arg(3)) {
            case 0: s[k].b.alloc(d); break;
            case 1: s[k].b.alloc(d.size(), (void*)d.data()); break;
            case 2: { SizedBuf t(d); s[k].b.alloc(t); break; }
            default: s[k].b.alloc(d.size()); if (s[k].b.size == d.size()) { for (size_t i = 0; i < d.size(); ++i) if (s[k].b.data[i]) x.fail("zero", "alloc(size) is not zeroed"); if (d.size()) memcpy(s[k].b.data, d.data(), d.size()); }
            }
            s[k].v = d; s[k].own = !d.empty();
        } else if (o.name == "refer") {
            if (k == l) continue;
            drop(k);
            s[k].b.referTo(s[l].b);
            s[k].v = s[l].v; s[k].own = false; s[k].src = s[l].own ? l : s[l].src;
        } else if (o.name == "move") {
            if (k == l) continue;
            drop(l);
            s[k].b.moveTo(s[l].b);
            s[l].v = s[k].v; s[l].own = s[k].own; s[l].src = s[k].src;
            for (auto& e : s) if (e.src == k) e.src = l;
            s[l].src = s[l].src == l ? -1 : s[l].src;
            s[k].v.clear(); s[k].own = false; s[k].src = -1;
        } else if (o.name == "copy") {
            if (k == l) continue;
            drop(l);
            s[k].b.copyTo(s[l].b);
            s[l].v = s[k].v; s[l].own = !s[k].v.empty();
            if (s[l].b.size && s[l].b.data == s[k].b.data) x.fail("alias", "copyTo does not copy the memory");
        } else if (o.name == "free") drop(k);
        else if (o.name == "clear") { if (!s[k].own) { drop(k); } }
        else if (o.name == "set") {
            drop(k);
            keep.push_back(new std::string(bytes(o.arg(2), o.arg(1))));
            s[k].b.set(*keep.back());
            s[k].v = *keep.back();
        } else if (o.name == "del") {
            drop(k);
            std::string d = bytes(o.arg(2), o.arg(1));
            if (d.empty()) continue;
            uint8_t* p = new uint8_t[d.size()];
            memcpy(p, d.data(), d.size());
            s[k].b.set(d.size(), p);
            s[k].b.setNeedToDelete();
            s[k].v = d; s[k].own = true;
        } else if (o.name == "resize") {
            size_t nz = std::max<int64_t>(1, o.arg(1));
            bool mall = s[k].b.flags & SizedBufFlags::NEED_TO_FREE;
            for (int j = 0; j < 5; ++j) if (s[j].src == k) { s[j].b.clear(); s[j].v.clear(); s[j].src = -1; }
            uint32_t before = s[k].b.size;
            s[k].b.resize(nz);
            if (mall) {
                if (s[k].b.size != nz) x.fail("resize", "size after resize(%zu) is %u", nz, s[k].b.size);
                std::string t = s[k].b.toString();
                if (t.substr(0, std::min<size_t>(before, nz)) != s[k].v.substr(0, std::min<size_t>(before, nz))) x.fail("resize", "resize lost the contents");
                if (nz > before) memset(s[k].b.data + before, 0x33, nz - before);
                s[k].v = s[k].b.toString();
            }
        } else if (o.name == "holder") {
            if (!s[k].own) continue;
            for (int j = 0; j < 5; ++j) if (s[j].src == k) { s[j].b.clear(); s[j].v.clear(); s[j].src = -1; }
            { SizedBuf::Holder h(s[k].b); }
            s[k].v.clear(); s[k].own = false;
        } else if (o.name == "print") {
            std::string t = s[k].b.toReadableString();
            std::string e = "(empty)";
            if (!s[k].v.empty()) {
                e = "(" + std::to_string(s[k].v.size()) + ") ";
                for (size_t i = 0; i < s[k].v.size() && i < 48; ++i) { char ch = s[k].v[i]; e += (ch >= 0x20 && ch <= 0x7d) ? ch : '.'; }
                if (s[k].v.size() > 48) e += "...";
            }
            if (t != e) x.fail("print", "readable form is \"%s\", expected \"%s\"", t.c_str(), e.c_str());
        } else if (o.name == "cmp" || o.name == "cmpx") {
            std::string a, b;
            if (o.name == "cmp") { a = s[k].v; b = s[l].v; }
            else {       // near-equal strings over a tiny alphabet with high bytes
                auto mk = [](int64_t len, int64_t bits) { std::string t; const char al[] = {'\0', 'a', '\x7f', '\xff'}; for (int64_t i = 0; i < len; ++i) t += al[(bits >> (2 * i)) & 3]; return t; };
                a = mk(o.arg(0), o.arg(2)); b = mk(o.arg(1), o.arg(3));
            }
            SizedBuf A(a.size(), (void*)a.data()), B(b.size(), (void*)b.data());
            if (o.name == "cmp") { A.referTo(s[k].b); B.referTo(s[l].b); }
            int e = 0;
            for (size_t i = 0; i < std::min(a.size(), b.size()) && !e; ++i) e = (int)(uint8_t)a[i] - (int)(uint8_t)b[i];
            if (!e) e = a.size() < b.size() ? -1 : a.size() > b.size();
            e = sgn(e);
            if (sgn(SizedBuf::cmp(A, B)) != e) x.fail("cmp", "cmp(%s, %s) has the wrong sign", hex(a).c_str(), hex(b).c_str());
            if ((A == B) != (e == 0) || (A != B) != (e != 0) || (A < B) != (e < 0) || (A <= B) != (e <= 0) || (A > B) != (e > 0) || (A >= B) != (e >= 0))
                x.fail("order", "comparison operators of %s and %s disagree with the byte order", hex(a).c_str(), hex(b).c_str());
            ncmp++;
        } else if (o.name == "kv") {
            std::string kk = bytes(o.arg(2), o.arg(0)), vv = bytes(o.arg(2) + 1, o.arg(1));
            KV a;
            switch (o.arg(3)) {
            case 0: a.alloc(kk, vv); break;
            case 1: a.alloc(SizedBuf(kk), SizedBuf(vv)); break;
            case 2: { KV t(kk, vv); t.copyTo(a); break; }
            case 3: { KV t; t.alloc(kk, vv); t.moveTo(a); if (t.size() || t.key.data || t.value.data) x.fail("kv-move", "KV is not empty after moveTo"); t.free(); break; }
            default: { KV t; t.alloc(kk, vv); KV u(t); if (u.key.data != t.key.data) x.fail("kv-copy", "copied KV does not refer to the same memory"); u.copyTo(a); t.free(); }
            }
            std::string k0 = kk, v0 = vv;
            if (o.arg(3) != 3) { for (auto& ch : kk) ch ^= 0x55; for (auto& ch : vv) ch ^= 0x55; }   // the clone must not follow the source
            if (a.key.toString() != k0 || a.value.toString() != v0 || a.size() != k0.size() + v0.size()) x.fail("kv", "KV holds other bytes than it was given");
            a.free();
            if (a.key.data || a.value.data || a.size()) x.fail("kv-free", "KV is not empty after free");
        } else if (o.name == "rec") {
            std::string kk = bytes(o.arg(3), o.arg(0)), vv = bytes(o.arg(3) + 1, o.arg(1)), mm = bytes(o.arg(3) + 2, o.arg(2));
            Record::Type t = (Record::Type)(o.arg(3) % 3);
            Record src(o.arg(3) * 17, t), dst;
            src.kv.alloc(kk, vv);
            src.meta.alloc(mm);
            if (src.size() != kk.size() + vv.size() + mm.size()) x.fail("rec-size", "Record::size is wrong");
            int how = (int)(o.arg(4) % 3);
            if (how == 0) {
                Status st = dst.clone(src);
                if (!st) x.fail("rec-clone", "clone failed");
                if (!kk.empty() || !vv.empty()) { if (dst.clone(src)) x.fail("rec-clone", "clone into a non-empty record succeeded"); }
            } else if (how == 1) src.copyTo(dst);
            else {
                src.moveTo(dst);
                if (src.kv.key.data || src.kv.value.data || src.meta.data || src.seqNum != Record::NIL_SEQNUM || src.type != Record::INSERTION) x.fail("rec-move", "record is not empty after moveTo");
            }
            src.free();
            if (dst.kv.key.toString() != kk || dst.kv.value.toString() != vv || dst.meta.toString() != mm) x.fail("rec", "record holds other bytes than its source");
            if (dst.seqNum != (uint64_t)o.arg(3) * 17 || dst.type != t) x.fail("rec", "sequence number or type was not carried over");
            if (dst.isIns() != (t == Record::INSERTION) || dst.isDel() != (t == Record::DELETION) || dst.isCmd() != (t == Record::COMMAND)) x.fail("rec-type", "type predicates disagree");
            if (dst.empty() != (kk.empty() && vv.empty())) x.fail("rec-empty", "empty() is wrong");
            dst.free();
            if (dst.kv.key.data || dst.kv.value.data || dst.meta.data) x.fail("rec-free", "record is not empty after free");
        }
        for (int i = 0; i < 5; ++i) chk(i, o.name.c_str());
    }
    for (int i = 0; i < 5; ++i) drop(i);
    for (auto* p : keep) delete p;
    if (n >= 5) x.nontrivial();
    x.count("n:comparisons", ncmp);
}

void regHash(std::vector<Check>& v) {
    Check k;
    k.id = "C03";
    k.rule = "byte strings of 0 to 200,000 bytes at every misalignment, with previous values, seeds and split points; each is hashed by all functions and compared with independent bit-by-bit definitions, one bit is flipped per string; non-trivial = at least one non-empty string";
    k.quick_cases = 30000; k.thorough_cases = 800000; k.batch = 200; k.needs_dir = false;
    k.gen = genHash; k.run = runHash;
    v.push_back(k);
    k = Check();
    k.id = "C04";
    k.rule = "operation sequences over five buffers (owning, borrowed, moved, copied, resized) plus KV and Record copies, under AddressSanitizer; non-trivial = at least 5 operations";
    k.quick_cases = 400000; k.thorough_cases = 20000000; k.batch = 400; k.needs_dir = false;
    k.gen = genBuf; k.run = runBuf;
    k.assumptions = {"memory errors are observed by AddressSanitizer"};
    v.push_back(k);
}
} // namespace vh
