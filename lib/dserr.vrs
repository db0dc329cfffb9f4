// Stand-ins for src/ds/mod.rs ToDSError and ToDSErrorResult, which are generic over Into<DSError>.
pub trait ToDSError: Sized { spec fn ds_of(self) -> DSError; fn to_ds(self) -> (r: DSError) ensures r == self.ds_of(); }
impl ToDSError for rusqlite::Error {
    open spec fn ds_of(self) -> DSError { DSError::SqliteError(self) }
    fn to_ds(self) -> (r: DSError) { DSError::SqliteError(self) }
}
pub trait ToDSErrorResult<T>: Sized { spec fn mapped_err(self) -> Result<T, DSError>; fn to_ds_r(self) -> (r: Result<T, DSError>) ensures r == self.mapped_err(); }
impl<T> ToDSErrorResult<T> for Result<T, rusqlite::Error> {
    open spec fn mapped_err(self) -> Result<T, DSError> { match self { Ok(x) => Ok(x), Err(e) => Err(DSError::SqliteError(e)) } }
    fn to_ds_r(self) -> (r: Result<T, DSError>) { match self { Ok(x) => Ok(x), Err(e) => Err(e.to_ds()) } }
}
impl VxInto<GetReflogError> for DSError {
    open spec fn conv(self, r: GetReflogError) -> bool { r == GetReflogError::DSerror(self) }
    fn vx_into(self) -> (r: GetReflogError) { GetReflogError::DSerror(self) }
}
