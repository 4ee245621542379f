// ForestDB stand-in used by the verification harness.
//
// The submodule third_party/forestdb is empty in this checkout, so the upper
// 30 source files of Jungle cannot even be compiled.  This header declares the
// part of the ForestDB API that Jungle calls; fdbshim.cc implements it with an
// append-only log of (documents, commit records) per file.
#pragma once
#include "fdb_types.h"

#ifdef __cplusplus
extern "C" {
#endif

typedef uint64_t fdb_seqnum_t;
typedef struct _fdb_file_handle fdb_file_handle;
typedef struct _fdb_kvs_handle fdb_kvs_handle;
typedef struct _fdb_iterator fdb_iterator;

typedef enum {
    FDB_RESULT_SUCCESS = 0,
    FDB_RESULT_INVALID_ARGS = -1,
    FDB_RESULT_OPEN_FAIL = -2,
    FDB_RESULT_NO_SUCH_FILE = -3,
    FDB_RESULT_WRITE_FAIL = -4,
    FDB_RESULT_READ_FAIL = -5,
    FDB_RESULT_CLOSE_FAIL = -6,
    FDB_RESULT_COMMIT_FAIL = -7,
    FDB_RESULT_ALLOC_FAIL = -8,
    FDB_RESULT_KEY_NOT_FOUND = -9,
    FDB_RESULT_CHECKSUM_ERROR = -12,
    FDB_RESULT_FILE_CORRUPTION = -13,
    FDB_RESULT_ITERATOR_FAIL = -20,
    FDB_RESULT_NO_DB_INSTANCE = -38,
    FDB_RESULT_FILE_IS_BUSY = -41,
    FDB_RESULT_FSYNC_FAIL = -50,
    FDB_RESULT_INVALID_CONFIG = -51,
} fdb_status;

typedef enum {
    FDB_GET_GREATER_OR_EQUAL = 0,
    FDB_GET_GREATER = 1,
    FDB_GET_SMALLER_OR_EQUAL = 2,
    FDB_GET_SMALLER = 3,
} fdb_get_nearest_opt_t;

typedef enum {
    FDB_ITR_SEEK_HIGHER = 0,
    FDB_ITR_SEEK_LOWER = 1,
} fdb_iterator_seek_opt_t;

typedef uint16_t fdb_iterator_opt_t;
enum { FDB_ITR_NONE = 0, FDB_ITR_NO_DELETES = 2 };

typedef uint8_t fdb_commit_opt_t;
enum { FDB_COMMIT_NORMAL = 0, FDB_COMMIT_MANUAL_WAL_FLUSH = 1 };

typedef enum { FDB_SEQTREE_NOT_USE = 0, FDB_SEQTREE_USE = 1 } fdb_seqtree_opt_t;
typedef enum { FDB_DRB_NONE = 0, FDB_DRB_ODIRECT = 1 } fdb_durability_opt_t;

enum { FDB_CUSTOM_SEQNUM = 0x1 };

typedef uint32_t fdb_compaction_status;
enum { FDB_CS_BEGIN = 1, FDB_CS_MOVE_DOC = 2 };
typedef int fdb_compact_decision;
enum { FDB_CS_KEEP_DOC = 0, FDB_CS_DROP_DOC = 1 };

typedef int fdb_index_traversal_decision;
enum { FDB_IT_NEXT = 0, FDB_IT_STOP = 1 };

typedef struct fdb_doc_struct {
    size_t keylen;
    size_t metalen;
    size_t bodylen;
    size_t size_ondisk;
    void* key;
    fdb_seqnum_t seqnum;
    uint64_t offset;
    void* meta;
    void* body;
    bool deleted;
    uint32_t flags;
} fdb_doc;

typedef int (*fdb_custom_cmp_variable)(void* a, size_t len_a,
                                       void* b, size_t len_b,
                                       void* user_param);

typedef fdb_compact_decision (*fdb_compaction_callback)(
    fdb_file_handle* fhandle, fdb_compaction_status status,
    const char* kv_store_name, fdb_doc* doc,
    uint64_t last_oldfile_offset, uint64_t last_newfile_offset, void* ctx);

typedef void (*fdb_log_callback_ex)(int level, int ec, const char* file,
                                    const char* func, size_t line,
                                    const char* err_msg, void* ctx);

typedef fdb_index_traversal_decision (*fdb_index_traversal_callback)(
    fdb_kvs_handle* fhandle, void* key, size_t keylen, uint64_t offset, void* ctx);

typedef struct {
    uint64_t buffercache_size;
    bool wal_flush_before_commit;
    bool bulk_load_mode;
    bool do_not_search_wal;
    bool do_not_cache_doc_blocks;
    bool bottom_up_index_build;
    size_t num_blocks_readahead;
    fdb_durability_opt_t durability_opt;
    uint8_t compaction_threshold;
    size_t block_reusing_threshold;
    size_t max_block_reusing_cycle;
    uint64_t min_block_reuse_filesize;
    fdb_seqtree_opt_t seqtree_opt;
    uint32_t purging_interval;
    size_t num_keeping_headers;
    bool do_not_move_to_compacted_file;
    fdb_compaction_callback compaction_cb;
    uint32_t compaction_cb_mask;
    void* compaction_cb_ctx;
    bool enable_background_compactor;
    size_t num_compactor_threads;
    size_t num_wal_partitions;
    size_t num_bcache_partitions;
    int log_msg_level;
} fdb_config;

typedef struct {
    bool create_if_missing;
    fdb_custom_cmp_variable custom_cmp;
    void* custom_cmp_param;
} fdb_kvs_config;

typedef struct { char* kv_store_name; fdb_seqnum_t seqnum; } fdb_kvs_commit_marker_t;
typedef uint64_t fdb_snapshot_marker_t;
typedef struct {
    fdb_snapshot_marker_t marker;
    int64_t num_kvs_markers;
    fdb_kvs_commit_marker_t* kvs_markers;
} fdb_snapshot_info_t;

typedef struct {
    const char* filename;
    const char* new_filename;
    uint64_t doc_count;
    uint64_t deleted_count;
    uint64_t space_used;
    uint64_t file_size;
    size_t num_kv_stores;
    uint64_t num_live_nodes;
    uint64_t sb_bmp_revnum;
} fdb_file_info;

typedef struct {
    const char* name;
    fdb_seqnum_t last_seqnum;
    uint64_t doc_count;
    uint64_t deleted_count;
    uint64_t space_used;
    fdb_file_handle* file;
} fdb_kvs_info;

fdb_config fdb_get_default_config(void);
fdb_kvs_config fdb_get_default_kvs_config(void);
fdb_status fdb_open(fdb_file_handle** h, const char* filename, fdb_config* config);
fdb_status fdb_open_custom_cmp(fdb_file_handle** h, const char* filename,
                               fdb_config* config, size_t num,
                               char** names, fdb_custom_cmp_variable* funcs,
                               void** params);
fdb_status fdb_close(fdb_file_handle* h);
fdb_status fdb_kvs_open(fdb_file_handle* h, fdb_kvs_handle** out, const char* name,
                        fdb_kvs_config* config);
fdb_status fdb_kvs_close(fdb_kvs_handle* h);
fdb_status fdb_set(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_del(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_get(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_get_metaonly(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_get_nearest(fdb_kvs_handle* h, const void* key, size_t keylen,
                           fdb_doc* doc, fdb_get_nearest_opt_t opt);
fdb_status fdb_iterator_init(fdb_kvs_handle* h, fdb_iterator** it,
                             const void* start, size_t start_len,
                             const void* end, size_t end_len, fdb_iterator_opt_t opt);
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle* h, fdb_iterator** it,
                                      fdb_seqnum_t start, fdb_seqnum_t end,
                                      fdb_iterator_opt_t opt);
fdb_status fdb_iterator_seek(fdb_iterator* it, const void* key, size_t keylen,
                             fdb_iterator_seek_opt_t opt);
fdb_status fdb_iterator_seek_byseq(fdb_iterator* it, fdb_seqnum_t seq,
                                   fdb_iterator_seek_opt_t opt);
fdb_status fdb_iterator_seek_to_min(fdb_iterator* it);
fdb_status fdb_iterator_seek_to_max(fdb_iterator* it);
fdb_status fdb_iterator_next(fdb_iterator* it);
fdb_status fdb_iterator_prev(fdb_iterator* it);
fdb_status fdb_iterator_get(fdb_iterator* it, fdb_doc** doc);
fdb_status fdb_iterator_get_metaonly(fdb_iterator* it, fdb_doc** doc);
fdb_status fdb_iterator_close(fdb_iterator* it);
fdb_status fdb_snapshot_open(fdb_kvs_handle* h, fdb_kvs_handle** out, fdb_seqnum_t seq);
fdb_status fdb_get_all_snap_markers(fdb_file_handle* h, fdb_snapshot_info_t** out,
                                    uint64_t* num);
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t* m, uint64_t num);
fdb_status fdb_commit(fdb_file_handle* h, fdb_commit_opt_t opt);
fdb_status fdb_sync_file(fdb_file_handle* h);
fdb_status fdb_get_kvs_info(fdb_kvs_handle* h, fdb_kvs_info* info);
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle* h, fdb_seqnum_t* seq);
fdb_status fdb_get_file_info(fdb_file_handle* h, fdb_file_info* info);
uint64_t fdb_get_buffer_cache_used(void);
void fdb_print_cache_stats(void);
fdb_status fdb_traverse_index(fdb_kvs_handle* h, const void* key, size_t keylen,
                              fdb_index_traversal_callback cb, void* ctx);
fdb_status fdb_doc_free(fdb_doc* doc);
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex cb, void* ctx);
fdb_status fdb_shutdown(void);

#ifdef __cplusplus
}
#endif
