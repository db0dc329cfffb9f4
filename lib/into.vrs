/// Into::into, for the conversions used here.
pub trait VxInto<T>: Sized { spec fn conv(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.conv(r); }
