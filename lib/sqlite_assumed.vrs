// ---------------------------------------------------------------------------
// Assumed: rusqlite.  SQL texts are replaced by the values the extraction read from them (sqlspec.vrs).
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct Sql { x: () }
impl View for Sql { type V = SqlV; uninterp spec fn view(&self) -> SqlV; }
#[verifier::external_body]
pub struct ValX { x: () }
impl View for ValX { type V = Val; uninterp spec fn view(&self) -> Val; }
pub open spec fn pvals(p: Seq<ValX>) -> Seq<Val> { Seq::new(p.len(), |i: int| p[i]@) }
pub trait ToSql { spec fn sqlval(&self) -> Val; }
impl ToSql for str { open spec fn sqlval(&self) -> Val { Val::Text(self@) } }
impl ToSql for String { open spec fn sqlval(&self) -> Val { Val::Text(self@) } }
impl ToSql for [u8] { open spec fn sqlval(&self) -> Val { Val::Blob(self@) } }
impl ToSql for Vec<u8> { open spec fn sqlval(&self) -> Val { Val::Blob(self@) } }
impl ToSql for i64 { open spec fn sqlval(&self) -> Val { Val::Int(*self as int) } }
impl ToSql for i32 { open spec fn sqlval(&self) -> Val { Val::Int(*self as int) } }
impl<T: ToSql + ?Sized> ToSql for &T { open spec fn sqlval(&self) -> Val { (**self).sqlval() } }
impl<T: ToSql> ToSql for Option<T> { open spec fn sqlval(&self) -> Val { match self { Some(x) => x.sqlval(), None => Val::Null } } }
#[verifier::external_body]
pub fn vx_val<T: ToSql + ?Sized>(x: &T) -> (r: ValX) ensures r@ == x.sqlval() { unimplemented!() }
pub fn vx_noparams() -> (r: [ValX; 0]) { [] }

pub trait FromSql: Sized { spec fn is_val(&self, v: Val) -> bool; spec fn accepts(v: Val) -> bool; }
impl FromSql for Vec<u8> { open spec fn is_val(&self, v: Val) -> bool { v == Val::Blob(self@) } open spec fn accepts(v: Val) -> bool { v is Blob } }
impl FromSql for String { open spec fn is_val(&self, v: Val) -> bool { v == Val::Text(self@) } open spec fn accepts(v: Val) -> bool { v is Text } }
impl FromSql for u32 { open spec fn is_val(&self, v: Val) -> bool { v == Val::Int(*self as int) } open spec fn accepts(v: Val) -> bool { v is Int && 0 <= v->Int_0 <= u32::MAX } }
impl FromSql for i64 { open spec fn is_val(&self, v: Val) -> bool { v == Val::Int(*self as int) } open spec fn accepts(v: Val) -> bool { v is Int && i64::MIN <= v->Int_0 <= i64::MAX } }
impl FromSql for bool { open spec fn is_val(&self, v: Val) -> bool { v is Int && *self == (v->Int_0 != 0) } open spec fn accepts(v: Val) -> bool { v is Int } }
impl<T: FromSql> FromSql for Option<T> {
    open spec fn is_val(&self, v: Val) -> bool { match self { None => v is Null, Some(x) => !(v is Null) && x.is_val(v) } }
    open spec fn accepts(v: Val) -> bool { v is Null || T::accepts(v) }
}
/// The closure |row| row.get(0).
pub fn vx_row_get0<T: FromSql>(row: &rusqlite::Row) -> (r: Result<T, rusqlite::Error>)
    ensures match r { Ok(x) => x.is_val(row@), Err(e) => !rusqlite::no_rows(e) && !T::accepts(row@) }
{ row.get(0) }

pub mod rusqlite {
    use super::*;
    #[verifier::external_body]
    pub struct Error { x: () }
    #[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
    /// The error that means the query had no rows.
    pub uninterp spec fn no_rows(e: Error) -> bool;
    #[verifier::external_body]
    pub struct Row { x: () }
    impl View for Row { type V = Val; uninterp spec fn view(&self) -> Val; }
    impl Row {
        #[verifier::external_body]
        pub fn get<T: FromSql>(&self, i: usize) -> (r: Result<T, Error>)
            requires i == 0
            ensures match r { Ok(x) => x.is_val(self@), Err(e) => !no_rows(e) && !T::accepts(self@) }
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Connection { x: () }
    impl View for Connection { type V = DbV; uninterp spec fn view(&self) -> DbV; }
    #[verifier::external_body]
    pub struct Statement<'c> { x: core::marker::PhantomData<&'c ()> }
    impl<'c> View for Statement<'c> { type V = (DbV, SqlV); uninterp spec fn view(&self) -> (DbV, SqlV); }
    #[verifier::external_body]
    pub struct CachedStatement { x: () }
    impl View for CachedStatement { type V = SqlV; uninterp spec fn view(&self) -> SqlV; }
    #[verifier::external_body]
    pub struct Rows { x: () }
    pub struct RowsV { pub rest: Seq<Val>, pub healthy: bool }
    impl View for Rows { type V = RowsV; uninterp spec fn view(&self) -> RowsV; }
    impl Connection {
        #[verifier::external_body]
        pub fn open<S>(path: S) -> (r: Result<Connection, Error>)
            ensures
                r matches Ok(c) ==> c@.cur == file_tabs(path) && c@.file == file_id(path) && c@.saved is None && c@.pragmas == Map::<Seq<char>, Val>::empty() && (file_ok(path) ==> c@.healthy),
                r is Err ==> !file_ok(path),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn pragma_update<V: ToSql>(&mut self, schema: Option<u8>, name: &str, v: &V) -> (r: Result<(), Error>)
            ensures r is Ok ==> final(self)@ == (DbV { pragmas: old(self)@.pragmas.insert(name@, v.sqlval()), ..old(self)@ }),
                r is Err ==> final(self)@ == old(self)@ && !old(self)@.healthy,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn execute_batch(&mut self, q: &Sql) -> (r: Result<(), Error>)
            ensures ran(old(self)@, q@, Seq::empty(), r is Ok, final(self)@)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn execute(&mut self, q: &Sql, p: &[ValX]) -> (r: Result<usize, Error>)
            ensures ran(old(self)@, q@, pvals(p@), r is Ok, final(self)@)
        { unimplemented!() }
        /// `statement.execute(params)` for a statement prepared on this connection.
        #[verifier::external_body]
        pub fn vx_execute(&mut self, st: CachedStatement, p: &[ValX]) -> (r: Result<usize, Error>)
            ensures ran(old(self)@, st@, pvals(p@), r is Ok, final(self)@)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn prepare_cached(&self, q: &Sql) -> (r: Result<CachedStatement, Error>)
            ensures r matches Ok(s) ==> s@ == q@, r is Err ==> !self@.healthy
        { unimplemented!() }
        #[verifier::external_body]
        pub fn prepare<'c>(&'c self, q: &Sql) -> (r: Result<Statement<'c>, Error>)
            ensures r matches Ok(s) ==> s@ == (self@, q@), r is Err ==> !self@.healthy
        { unimplemented!() }
        #[verifier::external_body]
        pub fn query_row<T, F: FnOnce(&Row) -> Result<T, Error>>(&self, q: &Sql, p: &[ValX], f: F) -> (r: Result<T, Error>)
            requires forall|row: &Row| call_requires(f, (row,))
            ensures
                exists|rows: Seq<Val>| #[trigger] answer(self@.cur, q@, pvals(p@), rows) && (match r {
                    Ok(x) => rows.len() > 0 && exists|row: &Row| #![trigger row@] row@ == rows[0] && call_ensures(f, (row,), Ok::<T, Error>(x)),
                    Err(e) => (no_rows(e) ==> rows.len() == 0 || exists|row: &Row| #![trigger row@] row@ == rows[0] && call_ensures(f, (row,), Err::<T, Error>(e)))
                        && (self@.healthy && params_ok(pvals(p@)) ==> (no_rows(e) && rows.len() == 0)
                            || (rows.len() > 0 && exists|row: &Row| #![trigger row@] row@ == rows[0] && call_ensures(f, (row,), Err::<T, Error>(e)))),
                })
        { unimplemented!() }
    }
    impl<'c> Statement<'c> {
        #[verifier::external_body]
        pub fn query(&mut self, p: &[ValX]) -> (r: Result<Rows, Error>)
            ensures final(self)@ == old(self)@,
                r matches Ok(x) ==> x@.healthy == old(self)@.0.healthy && answer(old(self)@.0.cur, old(self)@.1, pvals(p@), x@.rest),
                r is Err ==> !old(self)@.0.healthy || !params_ok(pvals(p@)),
        { unimplemented!() }
        /// query_map, with the rows read at once.
        #[verifier::external_body]
        pub fn query_map<T, F: Fn(&Row) -> Result<T, Error>>(&mut self, p: &[ValX], f: F) -> (r: Result<Vec<Result<T, Error>>, Error>)
            requires forall|row: &Row| call_requires(f, (row,))
            ensures final(self)@ == old(self)@, r is Err ==> !old(self)@.0.healthy || !params_ok(pvals(p@)),
                r matches Ok(it) ==> exists|rows: Seq<Val>| #[trigger] answer(old(self)@.0.cur, old(self)@.1, pvals(p@), rows) && mapped(f, rows, it@, old(self)@.0.healthy)
        { unimplemented!() }
    }
    pub open spec fn mapped<T, F: Fn(&Row) -> Result<T, Error>>(f: F, rows: Seq<Val>, items: Seq<Result<T, Error>>, healthy: bool) -> bool {
        &&& items.len() == rows.len() || (!healthy && items.len() > 0 && items.last() is Err)
        &&& forall|i: int| #![trigger items[i]] 0 <= i < items.len() ==> (items[i] is Err && !healthy)
                || (i < rows.len() && exists|row: &Row| #![trigger row@] row@ == rows[i] && call_ensures(f, (row,), items[i]))
    }
    impl Rows {
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Result<Option<Row>, Error>)
            ensures final(self)@.healthy == old(self)@.healthy, r is Err ==> !old(self)@.healthy,
                r matches Ok(Some(x)) ==> old(self)@.rest.len() > 0 && x@ == old(self)@.rest[0] && final(self)@.rest == old(self)@.rest.skip(1),
                r matches Ok(None) ==> old(self)@.rest.len() == 0 && final(self)@.rest == old(self)@.rest,
        { unimplemented!() }
    }
    pub trait OptionalExtension<T> { fn optional(self) -> (r: Result<Option<T>, Error>); }
}
impl<T> rusqlite::OptionalExtension<T> for Result<T, rusqlite::Error> {
    #[verifier::external_body]
    fn optional(self) -> (r: Result<Option<T>, rusqlite::Error>)
        ensures match r { Ok(Some(x)) => self == Ok::<T, rusqlite::Error>(x), Ok(None) => self is Err && rusqlite::no_rows(self->Err_0), Err(e) => self == Err::<T, rusqlite::Error>(e) && !rusqlite::no_rows(e) }
    { unimplemented!() }
}
pub use rusqlite::OptionalExtension;
