// Executable stand-ins with contracts for language-level escapes.
/// assert!/debug_assert!: the asserted condition must be proved.
pub fn vassert(b: bool) requires b { }
/// assert! where the program is specified to stop when it fails (contract option panic=abort).
#[verifier::external_body]
pub fn vassert_or_abort(b: bool) ensures b { if !b { panic!() } }
/// panic!/unimplemented!/unreachable!: must be proved unreachable ...
#[verifier::external_body]
pub fn vunreached() -> ! requires false { panic!() }
/// ... or, under panic=abort, is allowed to stop the program.
#[verifier::external_body]
pub fn vabort() -> ! ensures false { panic!() }
