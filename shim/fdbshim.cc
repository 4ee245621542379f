// ForestDB stand-in: append-only file of documents and commit records.
//
// Semantics kept from ForestDB as Jungle uses it:
//  * only committed documents are visible (Jungle sets do_not_search_wal),
//    except reads by raw offset, which see every appended document;
//  * every commit leaves a snapshot marker named by the kvs sequence number;
//    a snapshot of marker S is the newest commit whose sequence number is S;
//  * commit is durable (data and commit record are fsync-ed) and atomic:
//    a torn tail is discarded by open;
//  * documents keep the sequence number given by the caller, and the kvs
//    sequence number is the largest one given.
#include <libforestdb/forestdb.h>

#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <unordered_map>
#include <vector>

namespace {

struct Rec {
    std::string key, meta, body;
    uint64_t seq = 0;
    uint64_t offset = 0;
    uint32_t size = 0;
    bool deleted = false;
    bool corrupted = false;
};
typedef std::shared_ptr<const Rec> RecP;

struct Cmp {
    fdb_custom_cmp_variable fn = nullptr;
    void* param = nullptr;
    int operator()(const char* a, size_t al, const char* b, size_t bl) const {
        if (fn) return fn((void*)a, al, (void*)b, bl, param);
        size_t m = std::min(al, bl);
        int c = m ? memcmp(a, b, m) : 0;
        if (c) return c;
        return (al < bl) ? -1 : (al > bl) ? 1 : 0;
    }
    int operator()(const std::string& a, const std::string& b) const {
        return (*this)(a.data(), a.size(), b.data(), b.size());
    }
};

struct Index {
    std::vector<RecP> byKey;
    std::vector<RecP> bySeq;
    uint64_t seq = 0;      // kvs sequence number at commit
    uint64_t live = 0;     // bytes of live documents
};
typedef std::shared_ptr<const Index> IndexP;

struct Commit { uint64_t seq; size_t upto; };  // `upto`: number of docs covered

uint32_t crcTable[256];
struct CrcInit {
    CrcInit() {
        for (uint32_t i = 0; i < 256; ++i) {
            uint32_t c = i;
            for (int k = 0; k < 8; ++k) c = (c & 1) ? 0xEDB88320u ^ (c >> 1) : c >> 1;
            crcTable[i] = c;
        }
    }
} crcInit;
uint32_t crc(const void* d, size_t n, uint32_t c = 0) {
    const unsigned char* p = (const unsigned char*)d;
    c = ~c;
    while (n--) c = crcTable[(c ^ *p++) & 0xff] ^ (c >> 8);
    return ~c;
}

struct Hdr {
    uint32_t magic;
    uint32_t hcrc;   // of the rest of the header
    uint32_t dcrc;   // of key, meta, body
    uint32_t type;   // 0 set, 1 del, 2 commit
    uint64_t seq;
    uint32_t klen, mlen, blen, pad;
};
const uint32_t MAGIC = 0x5fdb0c01;

uint32_t hdrCrc(const Hdr& h) {
    return crc((const char*)&h + 8, sizeof(Hdr) - 8);
}

void addDoc(std::string& out, const Rec& r, uint32_t type) {
    Hdr h;
    memset(&h, 0, sizeof(h));
    h.magic = MAGIC;
    h.type = type;
    h.seq = r.seq;
    h.klen = r.key.size(); h.mlen = r.meta.size(); h.blen = r.body.size();
    uint32_t c = crc(r.key.data(), r.key.size());
    c = crc(r.meta.data(), r.meta.size(), c);
    c = crc(r.body.data(), r.body.size(), c);
    h.dcrc = c;
    h.hcrc = hdrCrc(h);
    out.append((const char*)&h, sizeof(h));
    out += r.key; out += r.meta; out += r.body;
}

struct File {
    std::string path;
    int fd = -1;
    dev_t dev = 0;
    ino_t ino = 0;
    int refs = 0;
    bool seqTree = true;
    Cmp cmp;
    std::mutex lock;
    std::vector<RecP> docs;           // all documents in append order
    std::unordered_map<uint64_t, RecP> byOffset;
    std::vector<Commit> commits;
    IndexP latest;
    size_t committed = 0;             // docs covered by the last commit
    uint64_t seq = 0;                 // current kvs sequence number
    uint64_t eof = 0;                 // logical end (includes buffered)
    uint64_t flushed = 0;             // end of what was handed to the OS
    std::string buf;                  // not yet written
    bool needTruncate = false;

    ~File() { if (fd >= 0) ::close(fd); }

    IndexP build(const IndexP& base, size_t from, size_t to, uint64_t cseq) {
        auto idx = std::make_shared<Index>();
        idx->seq = cseq;
        auto less = [&](const RecP& a, const RecP& b) { return cmp(a->key, b->key) < 0; };
        // Last write per key wins.
        std::vector<RecP> fresh(docs.begin() + from, docs.begin() + to);
        std::stable_sort(fresh.begin(), fresh.end(), less);
        std::vector<RecP> dedup;
        for (size_t i = 0; i < fresh.size(); ++i) {
            if (i + 1 < fresh.size() && cmp(fresh[i]->key, fresh[i+1]->key) == 0) continue;
            dedup.push_back(fresh[i]);
        }
        const std::vector<RecP> none;
        const std::vector<RecP>& old = base ? base->byKey : none;
        size_t i = 0, j = 0;
        idx->byKey.reserve(old.size() + dedup.size());
        while (i < old.size() || j < dedup.size()) {
            int c = (i >= old.size()) ? 1 : (j >= dedup.size()) ? -1
                  : cmp(old[i]->key, dedup[j]->key);
            if (c < 0) idx->byKey.push_back(old[i++]);
            else {
                if (c == 0) i++;
                if (!dedup[j]->deleted) idx->byKey.push_back(dedup[j]);
                j++;
            }
        }
        for (auto& r: idx->byKey) idx->live += r->size;
        if (seqTree) {
            idx->bySeq = idx->byKey;
            std::sort(idx->bySeq.begin(), idx->bySeq.end(),
                      [](const RecP& a, const RecP& b) {
                          return a->seq != b->seq ? a->seq < b->seq
                                                  : a->offset > b->offset; });
            idx->bySeq.erase(std::unique(idx->bySeq.begin(), idx->bySeq.end(),
                             [](const RecP& a, const RecP& b) { return a->seq == b->seq; }),
                             idx->bySeq.end());
        }
        return idx;
    }

    bool readAll(std::string& out) {
        struct stat st;
        if (fstat(fd, &st)) return false;
        out.resize(st.st_size);
        size_t done = 0;
        while (done < out.size()) {
            ssize_t r = ::pread(fd, &out[done], out.size() - done, done);
            if (r < 0) { if (errno == EINTR) continue; return false; }
            if (r == 0) { out.resize(done); break; }
            done += r;
        }
        return true;
    }

    bool load() {
        std::string d;
        if (!readAll(d)) return false;
        size_t pos = 0, lastCommitEnd = 0;
        while (pos + sizeof(Hdr) <= d.size()) {
            Hdr h;
            memcpy(&h, d.data() + pos, sizeof(h));
            if (h.magic != MAGIC || h.hcrc != hdrCrc(h)) break;
            uint64_t dl = (uint64_t)h.klen + h.mlen + h.blen;
            if (pos + sizeof(Hdr) + dl > d.size()) break;
            if (h.type == 2) {
                commits.push_back({h.seq, docs.size()});
                pos += sizeof(Hdr);
                lastCommitEnd = pos;
                continue;
            }
            auto r = std::make_shared<Rec>();
            const char* p = d.data() + pos + sizeof(Hdr);
            r->key.assign(p, h.klen);
            r->meta.assign(p + h.klen, h.mlen);
            r->body.assign(p + h.klen + h.mlen, h.blen);
            r->corrupted = crc(p, dl) != h.dcrc;
            r->seq = h.seq;
            r->offset = pos;
            r->deleted = (h.type == 1);
            r->size = sizeof(Hdr) + dl;
            docs.push_back(r);
            pos += sizeof(Hdr) + dl;
        }
        committed = commits.empty() ? 0 : commits.back().upto;
        docs.resize(committed);
        for (auto& r: docs) byOffset[r->offset] = r;
        seq = commits.empty() ? 0 : commits.back().seq;
        latest = build(nullptr, 0, committed, seq);
        eof = flushed = lastCommitEnd;
        needTruncate = (lastCommitEnd != d.size());
        return true;
    }

    bool flushBuf() {
        if (needTruncate) {
            if (::ftruncate(fd, flushed)) return false;
            needTruncate = false;
        }
        size_t done = 0;
        while (done < buf.size()) {
            ssize_t r = ::pwrite(fd, buf.data() + done, buf.size() - done, flushed + done);
            if (r < 0) { if (errno == EINTR) continue; return false; }
            done += r;
        }
        flushed += buf.size();
        buf.clear();
        return true;
    }

    uint64_t append(const std::string& d) {
        uint64_t off = eof;
        buf += d;
        eof += d.size();
        return off;
    }
};

std::mutex regLock;
// Leaked on purpose: background threads may outlive static destruction.
std::map<std::string, std::shared_ptr<File>>& registry() {
    static auto* m = new std::map<std::string, std::shared_ptr<File>>();
    return *m;
}

void* dup(const std::string& s) {
    if (s.empty()) return nullptr;
    void* p = malloc(s.size());
    memcpy(p, s.data(), s.size());
    return p;
}

} // namespace

struct _fdb_file_handle { std::shared_ptr<File> f; };
struct _fdb_kvs_handle {
    std::shared_ptr<File> f;
    IndexP snap;    // non-null for a snapshot handle
    IndexP view() {
        if (snap) return snap;
        std::lock_guard<std::mutex> l(f->lock);
        return f->latest;
    }
};
struct _fdb_iterator {
    std::shared_ptr<File> f;
    IndexP idx;
    bool bySeq = false;
    long lo = 0, hi = 0, pos = 0;   // valid positions: [lo, hi)
    const RecP& at(long i) const { return bySeq ? idx->bySeq[i] : idx->byKey[i]; }
};

namespace {

long lowerKey(const File& f, const Index& ix, const void* k, size_t n) {
    long lo = 0, hi = ix.byKey.size();
    while (lo < hi) {
        long m = (lo + hi) / 2;
        const std::string& s = ix.byKey[m]->key;
        if (f.cmp(s.data(), s.size(), (const char*)k, n) < 0) lo = m + 1; else hi = m;
    }
    return lo;
}
long upperKey(const File& f, const Index& ix, const void* k, size_t n) {
    long lo = 0, hi = ix.byKey.size();
    while (lo < hi) {
        long m = (lo + hi) / 2;
        const std::string& s = ix.byKey[m]->key;
        if (f.cmp(s.data(), s.size(), (const char*)k, n) <= 0) lo = m + 1; else hi = m;
    }
    return lo;
}
long lowerSeq(const Index& ix, uint64_t s) {
    return std::lower_bound(ix.bySeq.begin(), ix.bySeq.end(), s,
        [](const RecP& r, uint64_t v) { return r->seq < v; }) - ix.bySeq.begin();
}
long upperSeq(const Index& ix, uint64_t s) {
    return std::upper_bound(ix.bySeq.begin(), ix.bySeq.end(), s,
        [](uint64_t v, const RecP& r) { return v < r->seq; }) - ix.bySeq.begin();
}

fdb_status fill(const RecP& r, fdb_doc* doc, bool withKey, bool withBody) {
    if (r->corrupted) return FDB_RESULT_CHECKSUM_ERROR;
    if (withKey) { doc->key = dup(r->key); doc->keylen = r->key.size(); }
    doc->meta = dup(r->meta); doc->metalen = r->meta.size();
    doc->bodylen = r->body.size();
    doc->body = withBody ? dup(r->body) : nullptr;
    doc->seqnum = r->seq;
    doc->offset = r->offset;
    doc->size_ondisk = r->size;
    doc->deleted = r->deleted;
    doc->flags = 0;
    return FDB_RESULT_SUCCESS;
}

fdb_status openImpl(fdb_file_handle** out, const char* fn, const fdb_config* c, Cmp cmp) {
    std::lock_guard<std::mutex> l(regLock);
    struct stat st;
    auto& reg = registry();
    auto e = reg.find(fn);
    if (e != reg.end()) {
        if (::stat(fn, &st) == 0 && st.st_dev == e->second->dev
            && st.st_ino == e->second->ino) {
            e->second->refs++;
            *out = new _fdb_file_handle{e->second};
            return FDB_RESULT_SUCCESS;
        }
        reg.erase(e);   // unlinked or replaced; old handles keep their File
    }
    auto f = std::make_shared<File>();
    f->path = fn;
    f->cmp = cmp;
    f->seqTree = (c->seqtree_opt == FDB_SEQTREE_USE);
    f->fd = ::open(fn, O_RDWR | O_CREAT, 0666);
    if (f->fd < 0) return FDB_RESULT_OPEN_FAIL;
    if (fstat(f->fd, &st)) return FDB_RESULT_OPEN_FAIL;
    f->dev = st.st_dev; f->ino = st.st_ino;
    if (!f->load()) return FDB_RESULT_READ_FAIL;
    f->refs = 1;
    reg[fn] = f;
    *out = new _fdb_file_handle{f};
    return FDB_RESULT_SUCCESS;
}

fdb_status put(fdb_kvs_handle* h, fdb_doc* doc, bool del) {
    if (h->snap) return FDB_RESULT_INVALID_ARGS;
    auto r = std::make_shared<Rec>();
    r->key.assign((const char*)doc->key, doc->keylen);
    if (doc->metalen) r->meta.assign((const char*)doc->meta, doc->metalen);
    if (!del && doc->bodylen) r->body.assign((const char*)doc->body, doc->bodylen);
    r->deleted = del;
    File& f = *h->f;
    std::lock_guard<std::mutex> l(f.lock);
    if (doc->flags & FDB_CUSTOM_SEQNUM) {
        r->seq = doc->seqnum;
        if (r->seq > f.seq) f.seq = r->seq;
    } else {
        r->seq = ++f.seq;
    }
    std::string d;
    addDoc(d, *r, del ? 1 : 0);
    r->size = d.size();
    r->offset = f.append(d);
    f.docs.push_back(r);
    f.byOffset[r->offset] = r;
    doc->offset = r->offset;
    doc->seqnum = r->seq;
    doc->size_ondisk = r->size;
    return FDB_RESULT_SUCCESS;
}

fdb_status getImpl(fdb_kvs_handle* h, fdb_doc* doc, bool body) {
    IndexP ix = h->view();
    long i = lowerKey(*h->f, *ix, doc->key, doc->keylen);
    if (i >= (long)ix->byKey.size()) return FDB_RESULT_KEY_NOT_FOUND;
    const RecP& r = ix->byKey[i];
    if (h->f->cmp(r->key.data(), r->key.size(), (const char*)doc->key, doc->keylen))
        return FDB_RESULT_KEY_NOT_FOUND;
    return fill(r, doc, false, body);
}

fdb_status itGet(fdb_iterator* it, fdb_doc** doc, bool body) {
    if (it->pos < it->lo || it->pos >= it->hi) return FDB_RESULT_ITERATOR_FAIL;
    bool mine = (*doc == nullptr);
    if (mine) *doc = (fdb_doc*)calloc(1, sizeof(fdb_doc));
    fdb_status s = fill(it->at(it->pos), *doc, true, body);
    if (s != FDB_RESULT_SUCCESS && mine) { free(*doc); *doc = nullptr; }
    return s;
}

} // namespace

extern "C" {

fdb_config fdb_get_default_config(void) {
    fdb_config c;
    memset(&c, 0, sizeof(c));
    c.seqtree_opt = FDB_SEQTREE_NOT_USE;
    return c;
}
fdb_kvs_config fdb_get_default_kvs_config(void) {
    fdb_kvs_config c;
    memset(&c, 0, sizeof(c));
    c.create_if_missing = true;
    return c;
}
fdb_status fdb_open(fdb_file_handle** h, const char* fn, fdb_config* c) {
    return openImpl(h, fn, c, Cmp());
}
fdb_status fdb_open_custom_cmp(fdb_file_handle** h, const char* fn, fdb_config* c,
                               size_t num, char**, fdb_custom_cmp_variable* funcs,
                               void** params) {
    Cmp cmp;
    if (num) { cmp.fn = funcs[0]; cmp.param = params ? params[0] : nullptr; }
    return openImpl(h, fn, c, cmp);
}
fdb_status fdb_close(fdb_file_handle* h) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    std::lock_guard<std::mutex> l(regLock);
    auto f = h->f;
    delete h;
    if (--f->refs == 0) {
        auto e = registry().find(f->path);
        if (e != registry().end() && e->second == f) registry().erase(e);
    }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_kvs_open(fdb_file_handle* h, fdb_kvs_handle** out, const char*,
                        fdb_kvs_config*) {
    *out = new _fdb_kvs_handle{h->f, nullptr};
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_kvs_close(fdb_kvs_handle* h) {
    delete h;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_set(fdb_kvs_handle* h, fdb_doc* doc) { return put(h, doc, false); }
fdb_status fdb_del(fdb_kvs_handle* h, fdb_doc* doc) { return put(h, doc, true); }
fdb_status fdb_get(fdb_kvs_handle* h, fdb_doc* doc) { return getImpl(h, doc, true); }
fdb_status fdb_get_metaonly(fdb_kvs_handle* h, fdb_doc* doc) {
    return getImpl(h, doc, false);
}
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle* h, fdb_doc* doc) {
    RecP r;
    {   std::lock_guard<std::mutex> l(h->f->lock);
        auto e = h->f->byOffset.find(doc->offset);
        if (e == h->f->byOffset.end()) return FDB_RESULT_KEY_NOT_FOUND;
        r = e->second;
    }
    return fill(r, doc, true, true);
}
fdb_status fdb_get_nearest(fdb_kvs_handle* h, const void* key, size_t n, fdb_doc* doc,
                           fdb_get_nearest_opt_t opt) {
    IndexP ix = h->view();
    long i = 0;
    switch (opt) {
    case FDB_GET_GREATER_OR_EQUAL: i = lowerKey(*h->f, *ix, key, n); break;
    case FDB_GET_GREATER:          i = upperKey(*h->f, *ix, key, n); break;
    case FDB_GET_SMALLER_OR_EQUAL: i = upperKey(*h->f, *ix, key, n) - 1; break;
    case FDB_GET_SMALLER:          i = lowerKey(*h->f, *ix, key, n) - 1; break;
    }
    if (i < 0 || i >= (long)ix->byKey.size()) return FDB_RESULT_KEY_NOT_FOUND;
    return fill(ix->byKey[i], doc, true, true);
}
fdb_status fdb_iterator_init(fdb_kvs_handle* h, fdb_iterator** out,
                             const void* s, size_t sl, const void* e, size_t el,
                             fdb_iterator_opt_t) {
    auto* it = new _fdb_iterator;
    it->f = h->f;
    it->idx = h->view();
    it->lo = sl ? lowerKey(*h->f, *it->idx, s, sl) : 0;
    it->hi = el ? upperKey(*h->f, *it->idx, e, el) : (long)it->idx->byKey.size();
    if (it->hi < it->lo) it->hi = it->lo;
    it->pos = it->lo;
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle* h, fdb_iterator** out,
                                      fdb_seqnum_t s, fdb_seqnum_t e,
                                      fdb_iterator_opt_t) {
    if (!h->f->seqTree) return FDB_RESULT_INVALID_CONFIG;
    auto* it = new _fdb_iterator;
    it->f = h->f;
    it->idx = h->view();
    it->bySeq = true;
    it->lo = lowerSeq(*it->idx, s);
    it->hi = e ? upperSeq(*it->idx, e) : (long)it->idx->bySeq.size();
    if (it->hi < it->lo) it->hi = it->lo;
    it->pos = it->lo;
    *out = it;
    return FDB_RESULT_SUCCESS;
}
static fdb_status seekTo(fdb_iterator* it, long lower, long upper,
                         fdb_iterator_seek_opt_t opt) {
    if (opt == FDB_ITR_SEEK_HIGHER) {
        it->pos = std::max(lower, it->lo);
        if (it->pos >= it->hi) { it->pos = it->hi; return FDB_RESULT_ITERATOR_FAIL; }
    } else {
        it->pos = std::min(upper, it->hi) - 1;
        if (it->pos < it->lo) { it->pos = it->lo - 1; return FDB_RESULT_ITERATOR_FAIL; }
    }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_seek(fdb_iterator* it, const void* k, size_t n,
                             fdb_iterator_seek_opt_t opt) {
    if (!it || it->bySeq) return FDB_RESULT_INVALID_ARGS;
    return seekTo(it, lowerKey(*it->f, *it->idx, k, n),
                  upperKey(*it->f, *it->idx, k, n), opt);
}
fdb_status fdb_iterator_seek_byseq(fdb_iterator* it, fdb_seqnum_t s,
                                   fdb_iterator_seek_opt_t opt) {
    if (!it || !it->bySeq) return FDB_RESULT_INVALID_ARGS;
    return seekTo(it, lowerSeq(*it->idx, s), upperSeq(*it->idx, s), opt);
}
fdb_status fdb_iterator_seek_to_min(fdb_iterator* it) {
    it->pos = it->lo;
    return it->lo < it->hi ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_seek_to_max(fdb_iterator* it) {
    it->pos = it->hi - 1;
    return it->lo < it->hi ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_next(fdb_iterator* it) {
    if (it->pos + 1 >= it->hi) { it->pos = it->hi; return FDB_RESULT_ITERATOR_FAIL; }
    it->pos++;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_prev(fdb_iterator* it) {
    if (it->pos - 1 < it->lo) { it->pos = it->lo - 1; return FDB_RESULT_ITERATOR_FAIL; }
    it->pos--;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_get(fdb_iterator* it, fdb_doc** doc) { return itGet(it, doc, true); }
fdb_status fdb_iterator_get_metaonly(fdb_iterator* it, fdb_doc** doc) {
    return itGet(it, doc, false);
}
fdb_status fdb_iterator_close(fdb_iterator* it) { delete it; return FDB_RESULT_SUCCESS; }

fdb_status fdb_snapshot_open(fdb_kvs_handle* h, fdb_kvs_handle** out, fdb_seqnum_t seq) {
    if (h->snap) {
        if (h->snap->seq != seq) return FDB_RESULT_NO_DB_INSTANCE;
        *out = new _fdb_kvs_handle{h->f, h->snap};
        return FDB_RESULT_SUCCESS;
    }
    File& f = *h->f;
    std::lock_guard<std::mutex> l(f.lock);
    if (f.latest && f.latest->seq == seq) {
        *out = new _fdb_kvs_handle{h->f, f.latest};
        return FDB_RESULT_SUCCESS;
    }
    for (size_t i = f.commits.size(); i-- > 0;) {
        if (f.commits[i].seq == seq) {
            *out = new _fdb_kvs_handle{h->f, f.build(nullptr, 0, f.commits[i].upto, seq)};
            return FDB_RESULT_SUCCESS;
        }
    }
    return FDB_RESULT_NO_DB_INSTANCE;
}
fdb_status fdb_get_all_snap_markers(fdb_file_handle* h, fdb_snapshot_info_t** out,
                                    uint64_t* num) {
    std::lock_guard<std::mutex> l(h->f->lock);
    auto& c = h->f->commits;
    *num = c.size();
    *out = nullptr;
    if (c.empty()) return FDB_RESULT_SUCCESS;
    *out = (fdb_snapshot_info_t*)calloc(c.size(), sizeof(fdb_snapshot_info_t));
    for (size_t i = 0; i < c.size(); ++i) {   // newest first
        auto& m = (*out)[i];
        m.marker = c.size() - i;
        m.num_kvs_markers = 1;
        m.kvs_markers = (fdb_kvs_commit_marker_t*)calloc(1, sizeof(fdb_kvs_commit_marker_t));
        m.kvs_markers[0].seqnum = c[c.size() - 1 - i].seq;
    }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t* m, uint64_t num) {
    for (uint64_t i = 0; m && i < num; ++i) free(m[i].kvs_markers);
    free(m);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_commit(fdb_file_handle* h, fdb_commit_opt_t) {
    File& f = *h->f;
    std::lock_guard<std::mutex> l(f.lock);
    Hdr c;
    memset(&c, 0, sizeof(c));
    c.magic = MAGIC; c.type = 2; c.seq = f.seq;
    c.hcrc = hdrCrc(c);
    f.append(std::string((const char*)&c, sizeof(c)));
    if (!f.flushBuf()) return FDB_RESULT_WRITE_FAIL;
    if (::fsync(f.fd)) return FDB_RESULT_FSYNC_FAIL;
    f.latest = f.build(f.latest, f.committed, f.docs.size(), f.seq);
    f.committed = f.docs.size();
    f.commits.push_back({f.seq, f.committed});
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_sync_file(fdb_file_handle* h) {
    File& f = *h->f;
    std::lock_guard<std::mutex> l(f.lock);
    if (!f.flushBuf()) return FDB_RESULT_WRITE_FAIL;
    if (::fsync(f.fd)) return FDB_RESULT_FSYNC_FAIL;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_info(fdb_kvs_handle* h, fdb_kvs_info* info) {
    memset(info, 0, sizeof(*info));
    IndexP ix = h->view();
    info->name = "default";
    info->last_seqnum = ix->seq;
    info->doc_count = ix->byKey.size();
    info->space_used = ix->live;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle* h, fdb_seqnum_t* seq) {
    if (h->snap) { *seq = h->snap->seq; return FDB_RESULT_SUCCESS; }
    std::lock_guard<std::mutex> l(h->f->lock);
    *seq = h->f->seq;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_file_info(fdb_file_handle* h, fdb_file_info* info) {
    memset(info, 0, sizeof(*info));
    std::lock_guard<std::mutex> l(h->f->lock);
    File& f = *h->f;
    info->filename = f.path.c_str();
    info->doc_count = f.latest->byKey.size();
    info->space_used = f.latest->live;
    info->file_size = f.eof;
    info->num_kv_stores = 1;
    info->num_live_nodes = f.latest->byKey.size() / 32 + 1;
    return FDB_RESULT_SUCCESS;
}
uint64_t fdb_get_buffer_cache_used(void) { return 0; }
void fdb_print_cache_stats(void) {}
fdb_status fdb_traverse_index(fdb_kvs_handle* h, const void* key, size_t n,
                              fdb_index_traversal_callback cb, void* ctx) {
    IndexP ix = h->view();
    for (long i = n ? lowerKey(*h->f, *ix, key, n) : 0; i < (long)ix->byKey.size(); ++i) {
        std::string k = ix->byKey[i]->key;
        if (cb(h, &k[0], k.size(), ix->byKey[i]->offset, ctx) == FDB_IT_STOP) break;
    }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_doc_free(fdb_doc* d) {
    if (d) { free(d->key); free(d->meta); free(d->body); free(d); }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex, void*) {
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_shutdown(void) {
    std::lock_guard<std::mutex> l(regLock);
    return registry().empty() ? FDB_RESULT_SUCCESS : FDB_RESULT_FILE_IS_BUSY;
}

} // extern "C"
