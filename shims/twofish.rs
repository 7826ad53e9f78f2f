use vstd::prelude::*;
use crate::ext::cipher::*;
verus! {
#[verifier::external_body]
pub struct Twofish { p: () }
impl BlockCipher for Twofish {} impl BlockEncryptMut for Twofish {} impl BlockDecryptMut for Twofish {} impl BlockEncrypt for Twofish {} impl BlockDecrypt for Twofish {} impl KeyInit for Twofish {}
pub broadcast axiom fn axiom_twofish_key(n: nat) ensures #[trigger] key_ok::<Twofish>(n) <==> n <= 32 && n % 8 == 0 && n >= 16;
}
