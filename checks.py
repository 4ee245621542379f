_core = ["vh.cc", "io.cc", "world.cc", "dbg.cc", "p_core.cc", "p_worker.cc", "p_memtbl.cc", "p_crash.cc", "p_logstore.cc", "p_conc.cc", "sched.cc"]
_comp = ["vh.cc", "io.cc", "comp_main.cc", "p_file.cc", "p_hash.cc", "p_struct.cc", "p_util.cc", "p_pool.cc", "sched.cc"]
_comp_repo = ["avltree.cc", "bloomfilter.cc", "crc32.cc", "fileops_posix.cc", "fileops_directio.cc", "internal_helper.cc",
              "logger.cc", "murmurhash3.cc", "skiplist.cc", "table_lookup_booster.cc"]
_mutex = "pthread_mutex_lock pthread_mutex_unlock"
GROUPS = {
    "core": {"src": _core, "wrap": _mutex},
    # the same program under AddressSanitizer, with perturbed schedules (src/sched.cc)
    "core_asan": {"src": _core, "variant": "asan", "wrap": _mutex,
                  "perturb": ["flusher.cc", "iterator.cc", "jungle.cc", "log_file.cc", "log_iterator.cc", "log_manifest.cc", "log_mgr.cc", "log_reclaimer.cc",
                              "memtable.cc", "memtable_iterator.cc", "skiplist.cc", "table_compaction.cc", "table_file.cc", "table_helper.cc", "table_iterator.cc",
                              "table_manifest.cc", "table_mgr.cc", "table_set_batch.cc", "table_writer.cc", "worker_mgr.cc"]},
    "comp": {"src": _comp, "repo": _comp_repo, "variant": "asan", "perturb": ["skiplist.cc", "logger.cc", "p_pool.cc"]},
}
CHECKS = {
    "D01": {"group": "core"}, "D02": {"group": "core"}, "D03": {"group": "core"}, "D04": {"group": "core"}, "D11": {"group": "core"}, "D12": {"group": "core"},
    "C13": {"group": "core"}, "D20": {"group": "core"}, "D06": {"group": "core"}, "D07": {"group": "core"}, "D14": {"group": "core"}, "C14": {"group": "core_asan"}, "D18": {"group": "core_asan"},
    "C01": {"group": "comp"},
    "C02": {"group": "comp"},
    "C03": {"group": "comp"}, "C04": {"group": "comp"}, "C06": {"group": "comp"}, "C07": {"group": "comp"}, "C08": {"group": "comp"},
    "C05": {"group": "comp"}, "C10": {"group": "comp"}, "C11": {"group": "comp"}, "C09": {"group": "comp"}, "C12": {"group": "comp"},
}
