"""Which units and functions decide which property."""

FILE_TRAIT = ["src/ds/mod.rs:DataStore::"]

# property -> list of (unit, [item prefixes] or None for every item)
DS_PUT = ["src/ds/mod.rs:DataStore::put", "src/ds/mod.rs:DataStore::hash", "src/ds/mod.rs:DataStore::put_obj"]
DS_GET = ["src/ds/mod.rs:DataStore::get", "src/ds/mod.rs:DataStore::get_obj"]
KEYDB = ["src/key.rs:Key::hash_id", "src/key.rs:Key::hash_bytes", "src/key.rs:Key::from_db_key", "src/key.rs:Key::as_db_key", "src/key.rs:TypedKey<T>::inner"]

NOTE = "Verus discharges every obligation of the functions under contract, for all inputs and iterations; contracts of std, SQLite, serde_cbor and blake3 are assumed and listed in the evidence"

SQ = "src/ds/sqlite.rs:<SqliteDS as DataStore>::"
COMMANDS = ["insert", "fetch", "debug", "init", "commit_cmd", "show", "log", "compare", "status", "checkout", "checkout_head", "ref_cmd", "ref_update", "ref_log",
            "debug_set_head", "debug_get_head", "debug_walk_tree", "debug_walk_fs_tree", "debug_pretty_print", "debug_commit_tree", "debug_reflog_get", "debug_reflog_push", "main", "find_db_folder", "get_head_key"]
MAIN_ALL = ["src/main.rs:" + f for f in COMMANDS]
SQT = ["src/ds/sqlite.rs:<SqliteDS as ds::Transactional>::" + x for x in ("begin_trans", "commit", "rollback")]
# A failed trait contract is reported at the contract (src/ds/mod.rs:DataStore::f) or in the body.


def sq(*names):
    return [p + n for n in names for p in (SQ, "src/ds/mod.rs:DataStore::")]


# What the functions of a property call is decided with them.
STORE = {"ds": DS_PUT + DS_GET, "key": KEYDB, "object": None, "sqlite": sq("raw_put", "raw_get")}
STREAMS = {"file": None, "file_total": None}
HEAD = ["src/ds/mod.rs:DataStore::get_head", "src/ds/mod.rs:DataStore::put_head"]


def src(f, *names):
    return ["src/%s.rs:%s" % (f, n) for n in names]


def closure(*parts):
    """Units with the functions of each; None is every function of the unit."""
    out = {}
    for p in parts:
        for u, fns in p.items():
            out[u] = None if fns is None or (u in out and out[u] is None) else sorted(set(out.get(u) or []) | set(fns))
    return out


FILTER = {"filter": None}
WALK = {"walk": None, "item": None}
HASH = {"hash": None, "cache": None, "file_key": None, **STREAMS}
COMPARE = closure({"compare": None}, WALK, HASH, FILTER, STORE, {"sqlite": sq("raw_exists")})
CANON = {"ds": ["src/ds/mod.rs:DataStore::canonicalize"], "key": KEYDB, "sqlite": sq("raw_exists", "raw_between", "reflog_get")}

PROPS = {
    "C01": {"units": closure(STREAMS, STORE), "note": NOTE},
    "C02": {"units": closure(STORE), "note": NOTE},
    "C03": {"units": {"key": KEYDB}, "note": NOTE},
    "C04": {"units": {"base32": None, "key": None, "keyish": None}, "note": NOTE},
    "C05": {"units": {"keyish": None, "base32": None, "key": KEYDB, "sqlite": sq("raw_between")}, "note": NOTE},
    "C06": {"units": closure(CANON, {"keyish": None}), "note": NOTE},
    "C07": {"units": closure({"commit": None}, STORE), "note": NOTE},
    "C08": {"units": {"sqlite": sq("reflog_push", "reflog_get", "reflog_walk"), "key": KEYDB, "main": src("main", "ref_update", "debug_reflog_push")}, "note": NOTE},
    "C09": {"units": {"ds": HEAD, "sqlite": sq("raw_get_state", "raw_put_state", "raw_put", "reflog_push"),
            "main": src("main", "debug_set_head", "debug_get_head", "init", "commit_cmd", "ref_update", "debug_reflog_push")}, "cli": True, "note": NOTE},
    "C10": {"units": closure({"item": None, "dir": None, "main": src("main", "insert", "fetch")}, STREAMS, STORE), "note": NOTE},
    "C11": {"units": closure({"dir": src("dir", "get_fs_item"), "item": src("dir", "<Object as TryInto<FSItem>>::try_into", "is_entry_name"), "main": src("main", "fetch")},
                             {"file": src("file", "read_data")}), "note": NOTE},
    "C12": {"units": COMPARE, "note": NOTE},
    "C13": {"units": {"diff": src("diff", "simplify")}, "note": NOTE},
    "C14": {"units": {"cache": None, "key": KEYDB}, "note": NOTE},
    "C15": {"units": {"main": MAIN_ALL, "sqlite": SQT + sq("raw_put", "raw_put_state", "reflog_push")}, "cli": True, "note": NOTE},
    "C16": {"units": closure(WALK, {"ds": DS_GET, "key": KEYDB, "object": None, "sqlite": sq("raw_get")}), "note": NOTE},
    "C17": {"units": closure(FILTER, {"dir": src("dir", "put_fs_item"), "walk": src("dir", "walk_real_fs_items", "internal_walk_real_fs_items"), "main": src("main", "insert", "commit_cmd")}), "note": NOTE},
    "C18": {"units": closure({"main": src("main", "checkout_head"), "diff": src("diff", "diff_result_empty"), "commit": src("commit", "Commit::from_key", "Commit::tree", "<Object as TryInto<Commit>>::try_into"),
                              "ds": HEAD, "sqlite": sq("raw_get_state", "raw_put_state", "reflog_get")}, COMPARE), "cli": True, "note": NOTE},
    "C19": {"units": closure({"diff": src("diff", "line_ct", "line_stat"), "file": src("file", "read_data"), "ds": DS_GET}), "note": NOTE},
    "C20": {"units": {"sqlite": ["src/ds/sqlite.rs:SqliteDS::new"]}, "note": NOTE},
    "C21": {"units": closure({"main": src("main", "commit_cmd"), "commit": None, "dir": src("dir", "put_fs_item"), "item": None, "ds": HEAD,
                              "sqlite": sq("reflog_push", "reflog_get", "raw_get_state")}, {"file": src("file", "put_data")}, STORE), "cli": True, "note": NOTE},
    "C22": {"units": {"keyish": None}, "note": NOTE},
    "C23": {"units": closure({"show": None, "diff": src("diff", "simplify", "line_ct", "line_stat"), "commit": None, "key": None, "base32": None, "ds": HEAD,
                              "file": src("file", "read_data"), "sqlite": sq("raw_get_state", "reflog_get", "reflog_walk", "reflog_push")}, CANON, COMPARE, STORE), "cli": True, "note": NOTE},
    "C25": {"units": {"main": MAIN_ALL, "sqlite": SQT + sq("raw_put", "raw_put_state", "reflog_push")}, "cli": True, "note": NOTE},
    "C26": {"units": {"main": src("main", "find_db_folder", "main", "init"), "ds": HEAD, "sqlite": sq("raw_get_state", "raw_put_state") + ["src/ds/sqlite.rs:SqliteDS::new"]}, "cli": True, "note": NOTE},
    "C27": {"units": closure({"patch": None, "show": src("show", "print_patch_diff_result", "display_obj"), "file": src("file", "read_data"), "ds": DS_GET, "object": None, "sqlite": sq("raw_get")}), "cli": True, "note": NOTE},
    "C28": {"units": closure({"checkout": None, "main": src("main", "checkout"), "file": src("file", "read_data"), "object": None, "item": None, "ds": HEAD,
                              "sqlite": sq("raw_get", "raw_get_state", "reflog_get")}, FILTER, {"ds": DS_GET}), "cli": True, "note": NOTE},
    "C24": {"units": closure({"file_key": None, "dir": src("dir", "put_fs_item"), "item": src("dir", "<FSItem as TryInto<Object>>::try_into")}, STORE), "note": NOTE},
}
