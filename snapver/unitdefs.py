import os
import re
from . import paths
from .extract import parse_contracts, Lost, bytestr, fn_edits, apply_edits, format_macro
from .units import Unit
from . import sql

HDR = "use vstd::std_specs::iter::IteratorSpec; use std::borrow::Cow;"
STD_RENAMES = {"map": "vx_map", "collect": "vx_collect", "as_deref": "vx_as_deref", "drain": "vx_drain", "extend": "vx_extend"}


def key_types(u):
    u.typ("src/key.rs", "Key", "TypedKey")
    u.lib("key.vrs")
    u.err("src/key.rs", "FromDbKeyError")


def unit_key():
    u = Unit("key", ["key.vrc", "base32.vrc"], method_rename=dict(STD_RENAMES, try_into="vx_try_into"))
    u.lib("base.vrs", "std_ext.vrs", "strs.vrs", "b32spec.vrs", "bitvec.vrs")
    key_types(u)
    u.lib("keyspec.vrs", "userkey.vrs")
    u.sig("src/base32.rs", "to_base32")
    u.impl("src/key.rs", "Key", ["hash_id", "hash_bytes", "from_db_key", "as_db_key", "as_user_key"])
    u.impl("src/key.rs", "TypedKey<T>", ["inner"], new_header="impl<T> TypedKey<T>")
    return u


def table_static(t):
    m = re.match(r'pub static (\w+): (.*?) = \*(b".*");$', t, re.S)
    if not m:
        raise Lost("static table has an unexpected form")
    return ("pub exec static %s: %s ensures forall|i: int| 0 <= i < 32 ==> #[trigger] %s@[i] == alpha(i) { *%s }"
            % (m.group(1), m.group(2), m.group(1), bytestr(m.group(3)))).replace("*&", "")


def unit_base32():
    u = Unit("base32", ["base32.vrc"], method_rename=dict(STD_RENAMES, bytes="vx_bytes"))
    u.lib("base.vrs", "std_ext.vrs", "strs.vrs", "b32spec.vrs", "bitvec.vrs")
    u.contract_raw()
    u.typ("src/base32.rs", "FromBase32Error")
    u.typ("src/base32.rs", "TABLE", static=table_static)
    u.fn("src/base32.rs", "pop_u5_from_bitvec", "from_base32", "to_base32")
    return u

DS_ERRS_UNIT = ["BeginTransError", "RollbackTransError", "CommitTransError", "RawGetError", "RawPutError", "RawExistsError",
                "RawGetStateError", "RawPutStateError", "ReflogPushError", "RawBetweenError", "GetHeadError", "GetObjError",
                "PutObjError", "WalkReflogError"]
MUTATORS = ["raw_put", "put", "put_obj", "raw_put_state", "put_head", "reflog_push"]
STORE_HDR = "    spec fn view(&self) -> StoreV;\n    spec fn ctx(&self) -> CtxV;\n"


def base_libs(u):
    u.lib("base.vrs", "std_ext.vrs", "strs.vrs", "iters.vrs")


def store_types(u, opaque_commit=True, sqlite=False):
    """Types every unit over a data store needs."""
    key_types(u)
    if opaque_commit:
        u.raw("pub struct Commit;", "(opaque Commit)")
    u.typ("src/object.rs", "Object", "ObjType")
    u.lib("objtype.vrs")
    if not sqlite:
        u.raw("pub mod rusqlite { pub struct Error; }", "(stand-in types)")
    u.typ("src/ds/mod.rs", "Reflog")
    u.typ("src/keyish.rs", "Keyish")
    u.lib("keyspec.vrs", "store.vrs", "serde_assumed.vrs")
    if sqlite:
        u.lib("refs.vrs", "sqlspec.vrs", "sqlite_assumed.vrs")
    u.err("src/ds/mod.rs", "DSError", "GetReflogError", "CanonicalizeError", *DS_ERRS_UNIT)
    if not sqlite:
        u.lib("refs.vrs")
    u.groups += ["ax_cloned::lemma_seq_cloned_bytes", "ax_cloned_key::lemma_seq_cloned_keys", "ax_cbor::axiom_cbor_obj", "ax_grows::lemma_grows_trans", "ax_grows::lemma_write_grows", "ax_grows::lemma_grows_refl", "ax_grows::lemma_grows_clash", "ax_cow::axiom_cow_owned"]


DEFAULTED = ("get", "hash", "put", "get_head", "put_head", "canonicalize", "get_obj", "put_obj")


def ds_trait(u, bodies=(), skip=()):
    u.trait("src/ds/mod.rs", "Transactional", "pub trait Transactional: Sized", extra=STORE_HDR)
    u.trait("src/ds/mod.rs", "DataStore", "pub trait DataStore: Transactional + Sized", bodies=bodies, skip=skip)


def key_conv(u):
    u.lib("into.vrs")
    u.impl("src/key.rs", "<Key as Into<TypedKey<T>>>", ["into"], new_header="impl<T> VxInto<TypedKey<T>> for Key",
           extra="    open spec fn conv(self, r: TypedKey<T>) -> bool { r.inner == self }\n")
    u.impl("src/key.rs", "<TypedKey<T> as Into<Key>>", ["into"], new_header="impl<T> VxInto<Key> for TypedKey<T>",
           extra="    open spec fn conv(self, r: Key) -> bool { r == self.inner }\n")


INTO = dict(STD_RENAMES, into="vx_into")


def unit_commit():
    u = Unit("commit", ["commit.vrc", "into.vrc", "ds.vrc", "object.vrc", "key.vrc"], method_rename=dict(INTO, sort="vx_sort", remove="vx_remove"), mutators=MUTATORS,
             path_subst=[("dir", "crate")])
    base_libs(u)
    u.raw("pub struct FSItem;", "(opaque FSItem)")
    store_types(u, opaque_commit=False)
    key_conv(u)
    object_sigs(u)
    u.sigs_impl("src/key.rs", "TypedKey<T>", ["inner"], new_header="impl<T> TypedKey<T>")
    ds_trait(u)
    u.lib("hashmap_opaque.vrs")
    u.typ("src/commit.rs", "Commit", "CommitAttrs")
    u.lib("commitspec.vrs")
    u.groups += ["ax_attrs::axiom_attrs", "ax_attrs::axiom_attrs_value"]
    u.err("src/commit.rs", "CommitTreeError")
    u.impl("src/commit.rs", "CommitAttrs", ["message", "set_message"])
    u.impl("src/commit.rs", "Commit", ["from_key", "parents", "tree", "attrs"])
    u.impl("src/commit.rs", "<Commit as TryInto<Object>>", ["try_into"], new_header="impl Commit", pub=True, exact=True)
    u.impl("src/commit.rs", "<Object as TryInto<Commit>>", ["try_into"], new_header="impl Object", pub=True, exact=True)
    u.fn("src/commit.rs", "commit_tree")
    return u


DIFF_REN = dict(INTO, filter="vx_filter", any="vx_any", count="vx_count")


def unit_diff():
    u = Unit("diff", ["diff.vrc", "into.vrc", "file.vrc", "ds.vrc", "object.vrc"], method_rename=DIFF_REN, mutators=MUTATORS,
             path_subst=[("dir", "crate"), ("=String::from_utf8_lossy", "crate::vx_lossy")])
    base_libs(u)
    u.raw("pub struct FSItem;", "(opaque FSItem)")
    store_types(u)
    key_conv(u)
    u.lib("levels.vrs", "io_assumed.vrs", "path.vrs", "linecount.vrs")
    ds_trait(u)
    u.err("src/file.rs", "ReadDataError")
    u.sig("src/file.rs", "read_data")
    u.typ("src/diff.rs", "DeletedDiffResult", "ModifiedDiffResult", "AddedDiffResult", "DiffResult", "LineStatResult", "FileStatResult")
    u.lib("diffspec.vrs")
    u.groups += ["ax_kept::lemma_kept_none", "ax_u8s::lemma_u8s_eq", "ax_nl::lemma_newlines_filtered", "ax_nl::lemma_filtered_add", "ax_nl::lemma_filtered_del", "ax_kept::lemma_kept_drop", "ax_kept::lemma_kept_push", "ax_take::lemma_take_all", "ax_take::lemma_take_none"]
    u.contract_raw()
    u.fn("src/diff.rs", "simplify", "diff_result_empty", "line_ct", "line_stat")
    return u


def incl_range(src, f, c):
    """s[a..=b], s[a..b]: a call of a function with a contract."""
    ed = []
    for x in f["body"]["index"]:
        t, d = src.txt(x["idx"]), 0
        for i in range(len(t)):
            d += (t[i] in "([{") - (t[i] in ")]}")
            if d == 0 and t[i:i + 2] == ".." and t[:i].strip() and t[i + 2:].strip("= \n"):
                incl = t[i:i + 3] == "..="
                a = x["idx"][0] + len(t[:i].encode())
                ed += [(x["span"][0], x["base"][0], "(*crate::vx_slice_%s(&(" % ("incl" if incl else "excl")), (x["base"][1], x["idx"][0], "), "),
                       (a, a + 2 + incl, ", "), (x["idx"][1], x["span"][1], "))")]
                break
    return ed


def add_str(src, f, c):
    """s += &t, of texts: s.push_str(&t)."""
    return [e for x in f["body"]["adds"] if x["ref"] for e in ((x["op"][0], x["op"][1], ".vx_push_str("), (x["right"][1], x["right"][1], ")"))]


def unit_patch():
    u = Unit("patch", ["into.vrc", "file.vrc", "ds.vrc", "object.vrc", "patch.vrc"],
             method_rename=dict(INTO, iter="vx_iter", any="vx_any", enumerate="vx_enumerate", min="vx_min", group_by="vx_group_by", push_str="vx_push_str", to_string="vx_to_string", into_owned="vx_into_owned",
                                split_inclusive="vx_split_inclusive", strip_suffix="vx_strip_suffix"),
             mutators=MUTATORS, macro={"format": format_macro}, extra=[incl_range, add_str], wrap_for=True,
             path_subst=[("dir", "crate"), ("=String::from_utf8_lossy", "crate::vx_from_utf8_lossy"), ("=std::str::from_utf8", "crate::vx_from_utf8"),
                         ("=patch::Line::Add", "crate::vx_add"), ("=patch::Line::Remove", "crate::vx_remove"), ("=patch::Line::Context", "crate::vx_context")])
    base_libs(u)
    u.raw("pub struct FSItem;", "(opaque FSItem)")
    store_types(u)
    key_conv(u)
    u.lib("levels.vrs", "io_assumed.vrs", "path.vrs", "b32spec.vrs", "userkey.vrs", "term.vrs")
    ds_trait(u)
    u.err("src/file.rs", "ReadDataError")
    u.sig("src/file.rs", "read_data")
    u.typ("src/diff.rs", "DeletedDiffResult", "ModifiedDiffResult", "AddedDiffResult", "DiffResult")
    u.err("src/diff.rs", "DiffPatchError")
    u.lib("patchspec.vrs", "patch_assumed.vrs")
    u.groups += ["ax_patch::axiom_file_text", "ax_take::lemma_take_all"]
    u.typ("src/diff.rs", "BEFORE_CONTEXT_LINES", "AFTER_CONTEXT_LINES")
    u.contract_raw()
    u.fn("src/diff.rs", "format_patch", "patch_range", "patch_lines", "patch_from_file_string", "create_diff_patch_result")
    return u


def unit_ds():
    u = Unit("ds", ["ds.vrc", "key.vrc"], method_rename=dict(STD_RENAMES), mutators=MUTATORS, path_subst=[("=hash", "crate::blake3::hash")])
    base_libs(u)
    store_types(u)
    u.lib("hash_assumed.vrs")
    u.sigs_impl("src/key.rs", "Key", ["from_db_key", "as_db_key"])
    u.sigs_impl("src/key.rs", "TypedKey<T>", ["inner"], new_header="impl<T> TypedKey<T>")
    ds_trait(u, bodies=DEFAULTED)
    return u


def unit_object():
    u = Unit("object", ["object.vrc"], method_rename=STD_RENAMES)
    base_libs(u)
    store_types(u)
    u.impl("src/object.rs", "Object", ["into_owned", "new", "new_owned", "objtype", "keys", "data"])
    return u


def object_sigs(u):
    u.sigs_impl("src/object.rs", "Object", ["into_owned", "new", "new_owned", "objtype", "keys", "data"])


def read_slice(src, f, c):
    """data.read(&mut buf[at..]): a call of a function with a contract."""
    ed = []
    for m in f["body"]["methods"]:
        if m["name"] == "read" and len(m["args"]) == 1:
            g = re.match(r"&mut\s+(\w+)\[\s*(.+?)\s*\.\.\s*\]$", src.txt(m["args"][0]), re.S)
            if g:
                ed.append((m["recv"][0], m["recv"][0], "crate::vx_read_from(&mut "))
                ed.append((m["recv"][1], m["span"][1], ", &mut %s, %s)" % g.groups()))
    return ed


def file_consts(u):
    u.typ("src/file.rs", "BLOB_ZERO_COUNT", "BLOB_ZERO_COUNT_MAX", "BLOB_ZERO_COUNT_BITMASK", "PER_LEVEL_COUNT", "PER_LEVEL_COUNT_MAX",
          consts={"BLOB_ZERO_COUNT_BITMASK": ("ensures BLOB_ZERO_COUNT_BITMASK == 0xFFF8_0000_0000_0000u64",
                                              "proof { assert((1u64 << 51u32) == 0x8_0000_0000_0000u64) by(bit_vector); assert(!(0x7_ffff_ffff_ffffu64) == 0xFFF8_0000_0000_0000u64) by(bit_vector); }")})


def unit_file():
    u = Unit("file", ["file.vrc", "ds.vrc", "object.vrc"], method_rename=dict(STD_RENAMES, copied="vx_copied", all="vx_all"), mutators=MUTATORS, extra=[read_slice])
    base_libs(u)
    store_types(u)
    u.lib("levels.vrs", "io_assumed.vrs")
    object_sigs(u)
    ds_trait(u)
    u.lib("put_lemmas.vrs")
    u.err("src/file.rs", "PutDataError", "ReadDataError")
    file_consts(u)
    u.fn("src/file.rs", "put_data", "read_data")
    return u


def unit_file_key():
    u = Unit("file_key", ["file_key.vrc", "ds.vrc", "object.vrc"], method_rename=dict(STD_RENAMES, copied="vx_copied", all="vx_all"), mutators=MUTATORS, extra=[read_slice])
    base_libs(u)
    store_types(u)
    u.lib("levels.vrs", "io_assumed.vrs")
    object_sigs(u)
    ds_trait(u)
    u.lib("put_lemmas.vrs")
    u.err("src/file.rs", "PutDataError", "ReadDataError")
    file_consts(u)
    u.lib("chunks.vrs")
    u.fn("src/file.rs", "put_data")
    return u


def unit_file_total():
    u = Unit("file_total", ["file_total.vrc", "ds.vrc", "object.vrc"], method_rename=dict(STD_RENAMES, copied="vx_copied", all="vx_all"), mutators=MUTATORS)
    base_libs(u)
    store_types(u)
    u.lib("levels.vrs", "io_assumed.vrs")
    object_sigs(u)
    ds_trait(u)
    u.err("src/file.rs", "ReadDataError")
    u.fn("src/file.rs", "read_data")
    return u


def str_index(src, f, c):
    """s[range] on a str parameter: a function call with a contract."""
    ed = []
    for x in f["body"]["index"]:
        if ".." in src.txt(x["idx"]) and src.txt(x["base"]) == "s":
            ed.append((x["span"][0], x["base"][0], "(*crate::vx_str_index("))
            ed.append((x["base"][1], x["idx"][0], ", "))
            ed.append((x["idx"][1], x["span"][1], "))"))
    return ed


def bitvec_macro(src, m):
    g = re.match(r"bitvec!\s*[\[(]\s*Msb0\s*,\s*u8\s*;\s*([0-9, ]*)[\])]$", src.txt(m["span"]))
    if not g:
        return None
    return [(m["span"][0], m["span"][1], "crate::BitVec::<crate::Msb0, u8>::vx_lit(&[%s])" % ", ".join(x.strip() + "u8" for x in g.group(1).split(",") if x.strip()))]


def unit_keyish():
    u = Unit("keyish", ["keyish.vrc", "base32.vrc"], method_rename=dict(STD_RENAMES, find="vx_find", contains="vx_contains", get="vx_get", eq_ignore_ascii_case="vx_ieq"),
             path_subst=[("Self::Err", "KeyishParseError"), ("=Self::Err", "KeyishParseError")], macro={"bitvec": bitvec_macro}, extra=[str_index])
    base_libs(u)
    u.lib("b32spec.vrs", "bitvec.vrs")
    store_types(u)
    u.lib("lex.vrs", "strs2.vrs", "bv_add.vrs")
    u.contract_raw()
    u.groups += ["ax_bvadd::axiom_bv_plus_one", "group_keyish"]
    u.typ("src/base32.rs", "FromBase32Error")
    u.typ("src/keyish.rs", "KeyishParseError")
    u.sig("src/base32.rs", "from_base32", "to_base32")
    u.impl("src/keyish.rs", "<Keyish as std::str::FromStr>", ["from_str"], new_header="impl Keyish", pub=True)
    return u


# --- SQLite ---------------------------------------------------------------

class SqlTexts:
    """Replaces SQL texts by calls of generated functions whose contract says what the text means."""

    def __init__(self):
        self.defs = []

    def lit(self, src, f, l):
        if l["kind"] != "str" or not sql.is_sql(l["value"]):
            return None
        v = sql.value(l["value"])
        n = "vx_sql_%d" % len(self.defs)
        self.defs.append("/// %s\n#[verifier::external_body]\npub fn %s() -> (r: Sql) ensures r@ == (%s) { unimplemented!() }"
                         % (" ".join(l["value"].split()), n, v))
        return "&crate::%s()" % n


def params_macro(src, m):
    s, e = m["span"]
    a = m["args"]
    if not a:
        return [(s, e, "&crate::vx_noparams()")]
    ed = [(s, a[0][0], "&[crate::vx_val(&(")]
    for x, y in zip(a, a[1:]):
        ed.append((x[1], y[0], ")), crate::vx_val(&("))
    ed.append((a[-1][1], e, "))]"))
    return ed


def sql_calls(src, f, c):
    ed = []
    b = f["body"]
    for cl in b["closures"]:
        t = src.txt(cl["span"])
        if re.match(r"\|\s*(\w+)\s*\|\s*(\{\s*\1\.get\(0\)\s*\}|\1\.get\(0\))$", t):
            ed.append((cl["span"][0], cl["span"][1], "crate::vx_row_get0"))
    for m in b["methods"]:
        if m["name"] == "execute" and not re.search(r"\bconn$", src.txt(m["recv"]).strip()):
            ed.append((m["span"][0], m["span"][0], "self.conn.vx_execute("))
            ed.append((m["recv"][1], m["open"], ", "))
    for st in b["stmts"]:
        if st["kind"] == "local" and not st.get("mut") and st.get("init") and re.match(r"rusqlite::Connection::open\b", src.txt(st["init"])):
            ed.append((st["pat"][0], st["pat"][0], "mut "))
    return ed


SQL_PATHS = [("ds", "crate"), ("commit", "crate"), ("=Path", "std::path::Path")]


def unit_cache():
    q = SqlTexts()
    u = Unit("cache", ["cache.vrc", "ds.vrc", "key.vrc"], method_rename=dict(STD_RENAMES, to_le_bytes="vx_to_le_bytes", extend_from_slice="vx_extend_slice"), mutators=MUTATORS, lit=q.lit,
             macro={"params": params_macro}, extra=[sql_calls], path_subst=SQL_PATHS)
    base_libs(u)
    store_types(u, sqlite=True)
    u.lib("into.vrs", "dserr.vrs")
    u.sigs_impl("src/key.rs", "Key", ["from_db_key", "as_db_key"])
    u.typ("src/cache.rs", "CacheKey")
    u.lib("cachekey.vrs")
    u.err("src/cache.rs", "RawGetCacheError", "RawPutCacheError", "PutCacheError", "GetCacheError")
    u.trait("src/ds/mod.rs", "Transactional", "pub trait Transactional: Sized", extra=STORE_HDR)
    u.trait("src/cache.rs", "Cache", "pub trait Cache: Transactional", bodies=("get", "put"))
    u.contract_raw()
    u.groups += ["ax_sql::group_sql"]
    u.groups += ["group_cache"]
    u.typ("src/cache.rs", "SqliteCache")
    u.err("src/cache.rs", "NewSqliteCacheError")
    u.impl("src/cache.rs", "SqliteCache", ["new"])
    u.impl("src/cache.rs", "<SqliteCache as ds::Transactional>", ["begin_trans", "commit", "rollback"], new_header="impl Transactional for SqliteCache", exact=True,
           extra="""    open spec fn view(&self) -> StoreV { cache_view(self.conn@.cur) }
    open spec fn ctx(&self) -> CtxV { CtxV { healthy: self.conn@.healthy, file: self.conn@.file, saved: match self.conn@.saved { Some(t) => Some(cache_view(t)), None => None } } }
""")
    u.impl("src/cache.rs", "<SqliteCache as Cache>", ["raw_get", "raw_put"], new_header="impl Cache for SqliteCache", exact=True)
    u.raw("/// The cache table, as the objects of a store.\npub open spec fn cache_view(t: TabsV) -> StoreV { StoreV { data: t.cache, state: Map::empty(), reflog: Seq::empty(), clash: false } }", "(spec)")
    u.raw("\n".join(q.defs), "(SQL texts)")
    return u


def unit_sqlite():
    q = SqlTexts()
    u = Unit("sqlite", ["sqlite.vrc", "into.vrc", "ds.vrc", "key.vrc"], method_rename=dict(STD_RENAMES, into="vx_into"), mutators=MUTATORS, lit=q.lit,
             macro={"params": params_macro}, extra=[sql_calls],
             path_subst=SQL_PATHS)
    base_libs(u)
    store_types(u, sqlite=True)
    key_conv(u)
    u.lib("dserr.vrs")
    u.sigs_impl("src/key.rs", "Key", ["from_db_key", "as_db_key"])
    u.sigs_impl("src/key.rs", "TypedKey<T>", ["inner"], new_header="impl<T> TypedKey<T>")
    ds_trait(u, skip=DEFAULTED)
    u.contract_raw()
    u.groups += ["ax_sql::group_sql"]
    u.typ("src/ds/sqlite.rs", "SqliteDS")
    u.err("src/ds/sqlite.rs", "NewSqliteError")
    u.impl("src/ds/sqlite.rs", "SqliteDS", ["new"])
    u.impl("src/ds/sqlite.rs", "<SqliteDS as ds::Transactional>", ["begin_trans", "commit", "rollback"], new_header="impl Transactional for SqliteDS", exact=True,
           extra="""    open spec fn view(&self) -> StoreV { self.conn@.cur.st }
    open spec fn ctx(&self) -> CtxV { CtxV { healthy: self.conn@.healthy, file: self.conn@.file, saved: match self.conn@.saved { Some(t) => Some(t.st), None => None } } }
""")
    u.impl("src/ds/sqlite.rs", "<SqliteDS as DataStore>", ["raw_get", "raw_put", "raw_exists", "raw_get_state", "raw_put_state", "reflog_push", "reflog_get", "reflog_walk", "raw_between"],
           new_header="impl DataStore for SqliteDS", exact=True)
    u.raw("\n".join(q.defs), "(SQL texts)")
    return u


# --- directories ----------------------------------------------------------

DIR_REN = dict(INTO, all="vx_all", zip="vx_zip", as_ref="vx_as_ref")
DIR_PATHS = [("std::fs", "crate::vxfs"), ("fs", "crate::vxfs"), ("=std::io::BufReader::new", "crate::BufReader::new"), ("=BufReader::new", "crate::BufReader::new"), ("cache", "crate")]


def also(u, name, vrc):
    """What another unit proves about the same function, added to its contract here (for callers)."""
    c = parse_contracts(open(os.path.join(paths.VERIF, "contracts", vrc)).read(), vrc)[0][name]
    have = u.contracts[name].spec
    for l in c.spec.split("\n"):
        if l.strip() and l not in have:
            u.contracts[name].spec += "        // proved in unit %s\n%s\n" % (vrc.split(".")[0], l)


def dir_unit(name, *vrc, opaque_commit=True, **kw):
    u = Unit(name, list(vrc) + ["into.vrc", "file.vrc", "ds.vrc", "object.vrc", "key.vrc"], method_rename=DIR_REN,
             mutators=[m for m in MUTATORS if m != "put"], path_subst=DIR_PATHS, **kw)
    u.into_errs = True
    also(u, "put_data", "file_key.vrc")
    base_libs(u)
    u.lib("into.vrs")
    u.typ("src/dir.rs", "FSItem", "FSItemType")
    store_types(u, opaque_commit=opaque_commit)
    u.impl("src/key.rs", "<Key as Into<TypedKey<T>>>", ["into"], new_header="impl<T> VxInto<TypedKey<T>> for Key",
           extra="    open spec fn conv(self, r: TypedKey<T>) -> bool { r.inner == self }\n")
    u.impl("src/key.rs", "<TypedKey<T> as Into<Key>>", ["into"], new_header="impl<T> VxInto<Key> for TypedKey<T>",
           extra="    open spec fn conv(self, r: Key) -> bool { r == self.inner }\n")
    object_sigs(u)
    u.lib("levels.vrs", "io_assumed.vrs", "path.vrs", "coll.vrs", "fs.vrs", "dirspec.vrs")
    u.groups += ["ax_item::axiom_item", "ax_item::axiom_item_value", "ax_path::axiom_file_name", "ax_fs::axiom_names", "ax_seqs::lemma_item_keys_of", "ax_seqs::lemma_item_keys_push", "ax_seqs::lemma_item_keys_none", "ax_seqs::lemma_item_keys_one", "ax_seqs::lemma_raws_push", "ax_seqs::lemma_raws_none", "ax_seqs::lemma_all_names", "ax_seqs::lemma_raws_at", "ax_seqs::lemma_unique_names", "ax_take::lemma_take_all", "ax_take::lemma_take_none"]
    return u


def unit_item():
    u = dir_unit("item", "item.vrc")
    u.fn("src/dir.rs", "is_entry_name")
    u.impl("src/dir.rs", "<FSItem as TryInto<Object>>", ["try_into"], new_header="impl FSItem", pub=True, exact=True)
    u.impl("src/dir.rs", "<Object as TryInto<FSItem>>", ["try_into"], new_header="impl Object", pub=True, exact=True)
    return u


def item_sigs(u):
    u.sigs_impl("src/dir.rs", "<FSItem as TryInto<Object>>", ["try_into"], new_header="impl FSItem")
    u.sigs_impl("src/dir.rs", "<Object as TryInto<FSItem>>", ["try_into"], new_header="impl Object")


def unit_dir():
    u = dir_unit("dir", "dir.vrc", "item.vrc")
    item_sigs(u)
    u.sigs_impl("src/key.rs", "TypedKey<T>", ["inner"], new_header="impl<T> TypedKey<T>")
    ds_trait(u, skip=("put",))
    u.err("src/file.rs", "PutDataError", "ReadDataError")
    u.sig("src/file.rs", "put_data", "read_data")
    u.err("src/dir.rs", "PutFsItemError")
    u.lib("sorts.vrs", "alike.vrs")
    u.rules.method_rename = dict(u.rules.method_rename, sort_by_key="vx_sort_by_key")
    u.groups += ["ax_sorts::" + x for x in ("lemma_collected", "lemma_oks", "lemma_sorted_entries", "lemma_entry_here", "lemma_oks_at", "lemma_kept_sorted")]
    u.groups += ["ax_shot::lemma_all_shot_grows", "ax_shot::lemma_all_shot_none", "ax_shot::lemma_all_shot_push", "ax_shot::lemma_all_shot_keys", "ax_shot2::lemma_dir_written", "ax_shot2::lemma_file_written",
                 "ax_names::lemma_kept_none", "ax_names::lemma_kept_step", "ax_names::lemma_kept_all", "ax_names::lemma_entry_at"]
    u.fn("src/dir.rs", "put_fs_item")
    u.lib("realspec.vrs", "placespec.vrs", "roundtrip.vrs")
    u.err("src/dir.rs", "GetFsItemError")
    u.groups += ["ax_tree::lemma_tree_parts", "ax_place::lemma_keeps_refl", "ax_place::lemma_upto_none", "ax_place::lemma_upto_step", "ax_place::lemma_near_way", "ax_place::lemma_near_step", "ax_place::lemma_placed_dir", "ax_place::lemma_placed_file", "ax_join::lemma_join_name"]
    u.fn("src/dir.rs", "get_fs_item")
    return u


def unit_checkout():
    u = dir_unit("checkout", "checkout.vrc", "item.vrc")
    item_sigs(u)
    u.sigs_impl("src/key.rs", "TypedKey<T>", ["inner"], new_header="impl<T> TypedKey<T>")
    ds_trait(u, skip=("put",))
    u.err("src/file.rs", "ReadDataError")
    u.sig("src/file.rs", "read_data")
    u.rules.path_subst = [("std::fs", "crate::disk"), ("fs", "crate::disk")] + u.rules.path_subst
    u.rules.method_rename = dict(u.rules.method_rename, difference="vx_difference", cloned="vx_cloned")
    u.lib("realspec.vrs", "placespec.vrs", "checkoutspec.vrs")
    u.err("src/dir.rs", "CheckoutFsItemError")
    u.groups += ["ax_join::lemma_join_name", "ax_names::lemma_entry_at", "ax_names::lemma_kept_none", "ax_names::lemma_kept_step"] + \
        ["ax_co::lemma_" + x for x in ("singles_none", "singles_push", "singles_raws", "chg_refl", "chg_made", "chg_less", "chg_kid", "chg_file", "kept_set", "raws_same")]
    u.fn("src/dir.rs", "checkout_fs_item")
    return u


def unit_walk():
    u = dir_unit("walk", "walk.vrc", "item.vrc")
    item_sigs(u)
    u.sigs_impl("src/key.rs", "TypedKey<T>", ["inner"], new_header="impl<T> TypedKey<T>")
    ds_trait(u, skip=("put",))
    u.lib("realspec.vrs", "walkspec.vrs")
    u.err("src/dir.rs", "WalkFsItemsError", "WalkRealFsItemsError")
    u.groups += ["ax_tree::lemma_tree_parts", "ax_join::lemma_join_name", "ax_names::lemma_entry_at"] + \
        ["ax_walk::lemma_walked_" + x for x in ("none", "step", "dir", "file")] + ["ax_rwalk::lemma_rwalked_" + x for x in ("none", "skip", "step", "dir", "file")] + ["ax_rwalk::lemma_names_push"]
    u.fn("src/dir.rs", "walk_fs_items", "internal_walk_fs_items", "walk_real_fs_items", "internal_walk_real_fs_items")
    return u


def unit_hash():
    u = dir_unit("hash", "hash.vrc", "item.vrc")
    item_sigs(u)
    u.sigs_impl("src/key.rs", "Key", ["as_db_key"])
    ds_trait(u, skip=("put",))
    u.err("src/file.rs", "PutDataError")
    u.sig("src/file.rs", "put_data")
    u.typ("src/cache.rs", "CacheKey")
    u.err("src/cache.rs", "RawGetCacheError", "RawPutCacheError", "PutCacheError", "GetCacheError")
    u.raw(GOOD)
    u.lib("hashedspec.vrs")
    u.trait("src/cache.rs", "Cache", "pub trait Cache: Sized", skip=("raw_get", "raw_put"))
    u.err("src/dir.rs", "HashFsItemError")
    u.fn("src/dir.rs", "hash_fs_item")
    return u


GOOD = """/// A cache entry that is right: the key of the content that a file with this identity has.
pub open spec fn good(c: CacheKey, k: Key) -> bool { k == filekey(content_of_ident(c.inode, c.mtime, c.size)) }
impl Clone for CacheKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for CacheKey { }"""


def unit_filter():
    u = dir_unit("filter", "filter.vrc")
    u.lib("globs.vrs")
    u.rules.path_subst = [("=AsRef<str>", "VxAsStr"), ("=Box::new", "crate::vx_box_filter"), ("globset", "crate::globset"), ("std::fs", "crate::vxfs")] + u.rules.path_subst
    u.groups += ["ax_glob::axiom_dot"]
    u.fn("src/filter.rs", "make_filter_fn")
    return u


def map_index(src, f, c):
    """m[k] on a map: a function call with a contract."""
    ed = []
    for x in f["body"]["index"]:
        ed.append((x["span"][0], x["base"][0], "(*"))
        ed.append((x["base"][1], x["idx"][0], ".vx_index("))
        ed.append((x["idx"][1], x["span"][1], "))"))
    return ed


def any_filter(src, f, c):
    """The filter that lets everything through: one opaque type."""
    ed = []
    for x in f["body"]["closures"]:
        if re.match(r"\|\s*_\w*\s*\|\s*true$", src.txt(x["span"])):
            ed.append((x["span"][0], x["span"][1], "crate::vx_any_filter()"))
    return ed


def deref_ref(src, f, c):
    """&*x of a variable."""
    a, b = f["block"]
    return [(a + m.start(), a + m.end(), "crate::VxDeref::vx_deref(&%s)" % m.group(1)) for m in re.finditer(r"&\*(\w+)(?=\s*[;,)])", src.txt((a, b)))]


def mut_store(src, f, c):
    """A local data store is written through: &self of the writers is read as &mut self."""
    return [(st["pat"][0], st["pat"][0], "mut ") for st in f["body"]["stmts"]
            if st["kind"] == "local" and not st.get("mut") and st.get("init") and re.match(r"SqliteDS::new\b", src.txt(st["init"]))]


def stub_trait_impl(u, trait, ty, f, skip=(), extra=""):
    """An implementation of which only the trait's contracts are known."""
    s = u.src(f)
    out = ["impl %s for %s {\n%s" % (trait, ty, extra)]
    for it in s.items:
        if it["kind"] == "trait" and it["name"] == trait:
            for g in it["fns"]:
                if g["kind"] != "method" or g["name"] in skip:
                    continue
                ed = fn_edits(s, g, {}, u.rules, set())
                if g.get("block"):
                    ed = [e for e in ed if e[1] <= g["block"][0]]
                    t = apply_edits(s.data, g["span"][0], g["block"][0], ed).strip()
                else:
                    t = apply_edits(s.data, g["span"][0], g["span"][1], ed).strip().rstrip(";")
                out.append("#[verifier::external_body] " + t + " { unimplemented!() }")
    u.parts.append(("impl %s for %s (contracts)" % (trait, ty), "\n".join(out) + "\n}"))


COMMANDS = [("insert", "InsertArgs", "Insert"), ("fetch", "FetchArgs", "Fetch"), ("debug", "DebugCommand", "Debug"), ("init", "InitArgs", "Init"), ("commit_cmd", "CommitArgs", "Commit"), ("show", "ShowArgs", "Show"),
            ("log", "LogArgs", "Log"), ("compare", "CompareArgs", "Compare"), ("status", "StatusArgs", "Status"), ("checkout", "CheckoutArgs", "Checkout"), ("checkout_head", "CheckoutHeadArgs", "CheckoutHead"), ("ref_cmd", "RefCommand", "Ref")]


def unit_main():
    u = dir_unit("main", "compare.vrc", "diff.vrc", "filter.vrc", "walk.vrc", "hash.vrc", "dir.vrc", "commit.vrc", opaque_commit=False, extra=[any_filter, mut_store, deref_ref], wrap_for=True)
    u.rules.method_rename = dict(u.rules.method_rename, begin_trans="vx_begin_trans", commit="vx_commit", rollback="vx_rollback", enumerate="vx_enumerate")
    del u.rules.method_rename["as_ref"]
    u.rules.path_subst = [("either", "crate::either"), ("=AsRef<str>", "VxAsStr"), ("globset", "crate::globset"), ("=std::fs::create_dir_all", "crate::create_dir_all"), ("=std::process::exit", "crate::process::exit"), ("=std::env::current_dir", "crate::current_dir"), ("=env::current_dir", "crate::current_dir"), ("=process::exit", "crate::process::exit"),
                          ("=compare", "crate::cmd_compare"), ("diff", "crate")] + u.rules.path_subst
    m = "src/main.rs"
    u.load_contracts("ds_caller.vrc")
    ds_trait(u, skip=("put",))
    u.raw("#[verifier::external_body] pub struct SqliteDS { x: u8 }\n#[verifier::external_body] pub struct SqliteCache { x: u8 }", "(opaque databases)")
    STUBV = "    uninterp spec fn view(&self) -> StoreV;\n    uninterp spec fn ctx(&self) -> CtxV;\n"
    stub_trait_impl(u, "Transactional", "SqliteDS", "src/ds/mod.rs", extra=STUBV)
    stub_trait_impl(u, "Transactional", "SqliteCache", "src/ds/mod.rs", extra=STUBV)
    stub_trait_impl(u, "DataStore", "SqliteDS", "src/ds/mod.rs", skip=("put",))
    u.lib("realspec.vrs", "walkspec.vrs", "globs.vrs", "placespec.vrs")
    u.err("src/file.rs", "PutDataError", "ReadDataError")
    u.err("src/cache.rs", "RawGetCacheError", "RawPutCacheError", "PutCacheError", "GetCacheError")
    u.lib("hashedspec.vrs")
    u.err("src/dir.rs", "PutFsItemError", "GetFsItemError", "WalkFsItemsError", "WalkRealFsItemsError", "HashFsItemError")
    u.sig("src/dir.rs", "put_fs_item", "get_fs_item", "walk_fs_items", "walk_real_fs_items")
    u.sig("src/filter.rs", "make_filter_fn")
    u.raw("impl VxKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }")
    u.sigs_impl("src/key.rs", "TypedKey<T>", ["inner"], new_header="impl<T> TypedKey<T>")
    u.raw("impl Key { #[verifier::external_body] pub fn as_user_key(&self) -> (r: String) { unimplemented!() } }", "(printing)")
    u.typ("src/commit.rs", "Commit", "CommitAttrs")
    u.lib("commitspec.vrs")
    u.groups += ["ax_attrs::axiom_attrs", "ax_attrs::axiom_attrs_value"]
    u.err("src/commit.rs", "CommitTreeError")
    u.sigs_impl("src/commit.rs", "CommitAttrs", ["message", "set_message"])
    u.sigs_impl("src/commit.rs", "Commit", ["from_key", "parents", "tree", "attrs"])
    u.sigs_impl("src/commit.rs", "<Object as TryInto<Commit>>", ["try_into"], new_header="impl Object")
    u.sig("src/commit.rs", "commit_tree")
    u.typ("src/diff.rs", "DiffTarget", "DeletedDiffResult", "ModifiedDiffResult", "AddedDiffResult", "DiffResult")
    u.err("src/diff.rs", "CompareError")
    u.lib("comparespec.vrs")
    u.sig("src/diff.rs", "compare", "diff_result_empty")
    lab, t = u.parts[-2]
    t2 = t.replace("Option<&'a SqliteCache>", "&'a mut SqliteCache").replace("cache is Some", "true")
    if t2 == t:
        raise Lost("compare: the cache parameter has an unexpected form")
    u.parts[-2] = (lab, t2)
    for n in ("Opt", "Common", "State", "DsState", "Command", "RefCommand", "RefLogArgs", "RefUpdateArgs", "CheckoutHeadArgs", "CheckoutArgs", "StatusArgs", "CompareArgs", "CommitArgs",
              "ShowArgs", "LogArgs", "InsertArgs", "FetchArgs", "DebugCommand", "GetHeadArgs", "SetHeadArgs", "WalkTreeArgs", "WalkFsTreeArgs", "PrettyPrintArgs", "InitArgs",
              "ReflogGetArgs", "ReflogPushArgs", "CommitTreeArgs", "CMDResult"):
        u.typ(m, n)
    u.raw("pub struct DatabaseNotFoundError;\npub struct NoHeadError;\npub struct NotCleanError;")
    u.lib("main_assumed.vrs", "main_print.vrs", "mainspec.vrs", "runspec.vrs")
    u.groups += ["ax_main::lemma_" + x for x in ("verdict", "is_commit", "texts_cloned")] + ["ax_anyhow::axiom_anyhow"]
    u.load_contracts("main.vrc")
    u.fn(m, "insert", "fetch", "ref_log", "ref_update", "ref_cmd", "debug_set_head", "debug_get_head", "debug_walk_tree", "debug_walk_fs_tree", "debug_pretty_print", "debug_commit_tree",
         "debug_reflog_get", "debug_reflog_push", "debug", "find_db_folder", "get_head_key", "commit_cmd", "show", "log", "compare", "status", "checkout", "checkout_head")
    rules = (u.rules.method_rename, u.rules.path_subst)
    u.rules.method_rename = dict(u.rules.method_rename, put_head="vx_put_head")
    u.rules.path_subst = [("=SqliteDS::new", "crate::vx_open")] + u.rules.path_subst
    u.fn(m, "init")
    u.rules.method_rename, u.rules.path_subst = rules
    w = []
    for n, a, var in COMMANDS:
        call = {"log": "cmd_log", "compare": "cmd_compare"}.get(n, n)
        w.append("""pub fn vx_run_%s(state: &mut State, args: %s, Tracked(w): Tracked<&mut Run>) -> (r: CMDResult)
    requires right_repo(*old(state)), asked().cmd == Command::%s(args), old(w).outcome is None, old(state).ds_state matches Some(x) ==> x.ds.ctx().saved is Some
    ensures cmd_frame(*old(state), *final(state)), final(w).outcome == Some((r is Ok, left(*final(state)))), final(w).begun == old(w).begun, final(w).visible == old(w).visible
{ let r = %s(state, args%s); proof { w.outcome = Some((r is Ok, left(*state))); } r }""" % (n, a, var, call, {"fetch": ", Tracked(&mut w.fs)", "init": ", Tracked(&mut w.made)"}.get(n, "")))
    u.raw("\n".join(w), "(commands, as main runs them)")
    u.rules.path_subst = [("=" + n, "crate::vx_run_" + n) for n, a, var in COMMANDS] + [p for p in u.rules.path_subst if p[0] != "=compare"]
    u.fn(m, "main")
    return u


def str_range(src, f, c):
    """s[a..b] with numbers: a call of a function with a contract (for texts and for slices)."""
    ed = []
    for x in f["body"]["index"]:
        g = re.match(r"(\d*)\s*\.\.\s*(\d*)$", src.txt(x["idx"]))
        if g and g.groups() != ("", ""):
            ed.append((x["span"][0], x["base"][0], "(*crate::vx_range%s(&(" % ("" if g.group(2) else "_from")))
            ed.append((x["base"][1], x["span"][1], "), %s))" % ", ".join([g.group(1) or "0"] + ([g.group(2)] if g.group(2) else []))))
    return ed


def unit_show():
    u = dir_unit("show", "compare.vrc", "diff.vrc", "filter.vrc", "dir.vrc", "commit.vrc", opaque_commit=False, extra=[str_range], wrap_for=True, macro={"format": format_macro})
    u.rules.method_rename = dict(u.rules.method_rename, enumerate="vx_enumerate", sort_unstable="vx_sort_unstable", copied="vx_copied")
    del u.rules.method_rename["as_ref"]
    u.rules.path_subst = [("either", "crate::either"), ("=AsRef<str>", "VxAsStr"), ("globset", "crate::globset"), ("diff", "crate"), ("commit", "crate"), ("object", "crate")] + u.rules.path_subst
    m = "src/main.rs"
    u.load_contracts("ds_caller.vrc")
    ds_trait(u, skip=("put",))
    u.raw("#[verifier::external_body] pub struct SqliteDS { x: u8 }\n#[verifier::external_body] pub struct SqliteCache { x: u8 }", "(opaque databases)")
    STUBV = "    uninterp spec fn view(&self) -> StoreV;\n    uninterp spec fn ctx(&self) -> CtxV;\n"
    stub_trait_impl(u, "Transactional", "SqliteDS", "src/ds/mod.rs", extra=STUBV)
    stub_trait_impl(u, "Transactional", "SqliteCache", "src/ds/mod.rs", extra=STUBV)
    stub_trait_impl(u, "DataStore", "SqliteDS", "src/ds/mod.rs", skip=("put",))
    u.lib("realspec.vrs", "walkspec.vrs", "globs.vrs", "placespec.vrs")
    u.err("src/file.rs", "PutDataError", "ReadDataError")
    u.sig("src/file.rs", "read_data")
    u.err("src/cache.rs", "RawGetCacheError", "RawPutCacheError", "PutCacheError", "GetCacheError")
    u.lib("hashedspec.vrs")
    u.err("src/dir.rs", "PutFsItemError", "GetFsItemError", "WalkFsItemsError", "WalkRealFsItemsError", "HashFsItemError")
    u.sig("src/dir.rs", "put_fs_item")
    u.sig("src/filter.rs", "make_filter_fn")
    u.raw("impl VxKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }")
    u.sigs_impl("src/key.rs", "Key", ["as_user_key"], new_header="impl Key")
    u.sigs_impl("src/key.rs", "TypedKey<T>", ["inner"], new_header="impl<T> TypedKey<T>")
    u.typ("src/commit.rs", "Commit", "CommitAttrs")
    u.lib("commitspec.vrs", "linecount.vrs")
    u.groups += ["ax_attrs::axiom_attrs", "ax_attrs::axiom_attrs_value"]
    u.err("src/commit.rs", "CommitTreeError")
    u.sigs_impl("src/commit.rs", "CommitAttrs", ["message"])
    u.sigs_impl("src/commit.rs", "Commit", ["from_key", "parents", "tree", "attrs"])
    u.sigs_impl("src/commit.rs", "<Object as TryInto<Commit>>", ["try_into"], new_header="impl Object")
    u.sig("src/commit.rs", "commit_tree")
    u.typ("src/diff.rs", "DiffTarget", "DeletedDiffResult", "ModifiedDiffResult", "AddedDiffResult", "DiffResult", "LineStatResult", "FileStatResult")
    u.err("src/diff.rs", "CompareError", "DiffPatchError")
    u.lib("diffspec.vrs", "comparespec.vrs")
    u.typ("src/display.rs", "Kind")
    u.raw("impl Clone for Kind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Copy for Kind {}", "(derived)")
    u.err("src/display.rs", "ShowError")
    u.load_contracts("patch.vrc")
    u.sig("src/diff.rs", "compare", "simplify", "line_stat", "create_diff_patch_result")
    for i, (lab, t) in enumerate(u.parts):
        if lab == "src/diff.rs:compare (contract)":
            t2 = t.replace("Option<&'a SqliteCache>", "impl VxCacheArg").replace("cache is Some", "cache.some()")
            if t2 == t:
                raise Lost("compare: the cache parameter has an unexpected form")
            u.parts[i] = (lab, t2)
    u.load_contracts("main.vrc")
    u.load_contracts("show.vrc")
    for n in ("Common", "State", "DsState", "CommitArgs", "RefLogArgs", "StatusArgs", "CompareArgs", "ShowArgs", "LogArgs", "InsertArgs", "ReflogGetArgs", "CommitTreeArgs", "CMDResult"):
        u.typ(m, n)
    u.raw("pub struct DatabaseNotFoundError;\npub struct NoHeadError;\npub struct NotCleanError;\nimpl VxError for ShowError { open spec fn unclean() -> bool { false } } impl VxError for DiffPatchError { open spec fn unclean() -> bool { false } }")
    u.lib("b32spec.vrs", "userkey.vrs", "main_assumed.vrs", "mainspec.vrs", "term.vrs", "patchspec.vrs", "showspec.vrs", "showmain.vrs")
    u.groups += ["ax_main::lemma_texts_cloned", "ax_term::lemma_w_parts", "ax_shows::lemma_shows", "ax_ascii::lemma_user_key_ascii", "ax_ascii::lemma_user_key_len"]
    u.fn("src/diff.rs", "print_line_stat", "print_diff_result", "print_stat_diff_result", "print_patch_diff_result")
    u.fn("src/display.rs", "display_obj", "log_obj")
    u.fn(m, "get_head_key", "insert", "ref_log", "debug_reflog_get", "debug_commit_tree", "show", "log", "compare", "status")
    return u


def unit_compare():
    u = dir_unit("compare", "compare.vrc", "diff.vrc", "filter.vrc", "walk.vrc", "hash.vrc", extra=[map_index], wrap_for=True)
    u.rules.method_rename = dict(u.rules.method_rename, difference="vx_difference", intersection="vx_intersection", sort_unstable="vx_sort_unstable")
    del u.rules.method_rename["as_ref"]
    u.rules.path_subst = [("either", "crate::either"), ("=AsRef<str>", "VxAsStr"), ("globset", "crate::globset")] + u.rules.path_subst
    u.raw("impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for TypedKey<T> {\n    open spec fn obeys_eq_spec() -> bool { true }\n    open spec fn eq_spec(&self, o: &TypedKey<T>) -> bool { self.inner == o.inner }\n}")
    u.impl("src/key.rs", "<TypedKey<T> as PartialEq>", ["eq"], new_header="impl<T> PartialEq for TypedKey<T>", exact=True)
    ds_trait(u, skip=("put",))
    u.lib("realspec.vrs", "walkspec.vrs", "globs.vrs")
    u.err("src/file.rs", "PutDataError")
    u.err("src/cache.rs", "RawGetCacheError", "RawPutCacheError", "PutCacheError", "GetCacheError")
    u.lib("hashedspec.vrs")
    u.raw("pub trait Cache: Sized {}\n#[verifier::external_body] pub struct SqliteCache { x: u8 }\nimpl Cache for SqliteCache {}", "(opaque cache)")
    u.err("src/dir.rs", "WalkFsItemsError", "WalkRealFsItemsError", "HashFsItemError")
    u.sig("src/dir.rs", "walk_fs_items", "walk_real_fs_items", "hash_fs_item")
    u.sig("src/filter.rs", "make_filter_fn")
    u.typ("src/diff.rs", "DiffTarget", "DeletedDiffResult", "ModifiedDiffResult", "AddedDiffResult", "DiffResult")
    u.err("src/diff.rs", "CompareError")
    u.lib("comparespec.vrs")
    u.groups += ["ax_pairs::lemma_pairs_" + x for x in ("none", "step", "all")] + ["ax_pairs::lemma_iset_none"]
    u.groups += ["ax_cmp::lemma_" + x for x in ("follows_none", "follows_push", "follows_map", "follows_all", "members_at", "picks_none", "picks_skip", "picks_push", "picks_all",
                                                "reordered_says", "reordered_added", "reordered_deleted", "reordered_modified", "added_none", "added_push", "modified_none", "modified_push",
                                                "deleted_map", "new_real", "new_stored", "old_stored", "no_paths", "walked_key", "real_names")]
    u.fn("src/diff.rs", "compare")
    return u
