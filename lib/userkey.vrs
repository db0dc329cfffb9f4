/// The printed form of a key.
pub open spec fn user_key(k: Key) -> Seq<char> { seq!['b'] + b32_chars(bits_of(key_bytes(k))) }
