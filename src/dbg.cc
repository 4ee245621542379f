// Debug helper (replay with VH_TABLES=1): prints the tables of every level.
#include "table_mgr.h"
#include "table_file.h"
#include "db_internal.h"
#include "internal_helper.h"
#include "log_mgr.h"
#include "log_manifest.h"
#include "log_file.h"
#include <cstdio>
#include <string>
#include <libjungle/jungle.h>
using namespace jungle;
namespace vh {
std::string hex(const std::string& s, size_t max);
void dumpTables(DB* db) {
    LogManifest* lm = db->p->logMgr->mani;
    uint64_t a = 0, b = 0;
    if (lm->getMinLogFileNum(a).ok() && lm->getMaxLogFileNum(b).ok())
        for (uint64_t i = a; i <= b; ++i) {
            LogFileInfo* li = lm->getLogFileInfoP(i, true);
            if (!li) continue;
            auto q = [](uint64_t v) { return (long)v; };
            fprintf(stderr, "  log %lu: min %ld flushed %ld synced %ld max %ld%s%s\n", (unsigned long)i, q(li->file->getMinSeqNum()), q(li->file->getFlushedSeqNum()),
                    q(li->file->getSyncedSeqNum()), q(li->file->getMaxSeqNum()), li->isEvicted() ? " evicted" : "", li->isRemoved() ? " removed" : "");
            li->done();
        }
    TableManifest* m = db->p->tableMgr->mani;
    for (size_t l = 0; l < m->getNumLevels(); ++l) {
        std::list<TableInfo*> t;
        SizedBuf e;
        if (l == 0) { for (uint32_t h = 0; h < db->p->tableMgr->getNumL0Partitions(); ++h) m->getL0Tables(h, t); }
        else m->getTablesRange(l, e, e, t);
        for (auto* x : t) {
            fprintf(stderr, "  L%zu table %lu hash %lu st %d min %s%s:", l, (unsigned long)x->number, (unsigned long)x->hashNum, (int)x->status.load(),
                    hex(std::string((char*)x->minKey.data, x->minKey.data ? x->minKey.size : 0), 24).c_str(), x->prevTableSearchRequired ? " PREV" : "");
            TableFile::Iterator it;
            if (it.init(nullptr, x->file, e, e).ok()) {
                do {
                    Record r;
                    if (!it.get(r).ok()) break;
                    fprintf(stderr, " %s@%lu%s", hex(std::string((char*)r.kv.key.data, r.kv.key.size), 24).c_str(), (unsigned long)r.seqNum, r.isDel() ? "D" : "");
                    r.free();
                } while (it.next().ok());
                it.close();
            }
            fprintf(stderr, "\n");
            x->done();
        }
    }
}
}
