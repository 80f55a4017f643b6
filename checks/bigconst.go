package checks

import "encoding/hex"

func hexs(b []byte) string { return hex.EncodeToString(b) }

// Digests of that many zero bytes, printed by cmd/bigdigest.
const (
	big2p29m1 = "1c4679f9e1f0dcbe86f8cd17b4df4fa26c84cde56f68b1b0b71ceb50c404b442"
	big2p29   = "7927ca8884a535d9a4d80986f7c478a790013ee370836dfb86a36b4443c86533"
	big2p29p3 = "a999f49394cb6484d5d83edccb8231a6af9529594c1b7d18bbb0e3dcdd1e7aa4"
	big2p31m1 = "061bf5076660f49b873b17330236cc5c488de307c319fa35906fc7293e77990c"
	big2p32p3 = "8f079378ff6ad6768ac6bc5e6b5d90cdefc6a0504ede0bd30a23290653d062ae"
	big2p31p5 = "243c68af00cf5bca6dd1eb89961ea9982051f7fe8a235f7f83b70cf5a94d5d5d"
)
