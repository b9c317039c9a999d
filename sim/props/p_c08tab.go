package props

// Digests of prefixes of the long stream (65521 bytes of core.NewRng(20), repeated), computed by cmd/rmdtab
// with the reference implementation.
var rmdLong = []struct {
	n   uint64
	sum string
}{
	{16777152, "897e20609dde77fa748e863bcb0af915adc2d6ac"},
	{16777215, "ed6bedea93c0c6af7c6f13db98d7bccebd45d5d0"},
	{16777216, "6eb0cd76666b5693684d81951d102fa29361bc84"},
	{16777217, "37e697703b5e5eb226c1b32c54cf4a3244512cbe"},
	{16777271, "6f42e71b10349ade4bf82b33dfdc34823f186c7d"},
	{16777272, "9491e0f4c5b1c0297e32f406bb0093db4fc61a2a"},
	{16777280, "d427199e6e485de1ca49a92a1e296074517fcffb"},
	{16777316, "1768437be19a042c671b9b3929e4935abcb3a2bb"},
	{268435392, "a2e4f8caf03e722736029e0c4e395484091ed96a"},
	{268435455, "2326cd67aed9a7a3bd795f0822700f6bc5fccf44"},
	{268435456, "222606ee0eba8f2159ada38672c89bf38c589131"},
	{268435457, "5c6aafa4b6f1b578f4d0caa022229efe6fe614a5"},
	{268435511, "83f62325f0bfdb664e12912c28e26df50e78d373"},
	{268435512, "f007539487f68ce7f95cad493dc7e96e173515ef"},
	{268435520, "f1d11449dc56e308136b1e8fe68a9fd6be5eded6"},
	{268435556, "976df70fd939011d8af0fb4aa03d11963ad05f0d"},
	{536870848, "6da22411d2516f7ca89449d7da511f63857654c7"},
	{536870911, "64ea5953837e0915772c21b31ce96951be88f556"},
	{536870912, "f7abddf1124823eed2544d7e65bc8e5ef75d27c3"},
	{536870913, "f865cd4cc4958427e801bcebe4bb1442aac9348e"},
	{536870967, "e417a9ac1cf344a9700aa4359dbf040dc363ab01"},
	{536870968, "c9b57b44e92f72b3b4c241a2c5b1c7b6dfb5a160"},
	{536870976, "1e28e46e88738a74c20f610a0fa03143cb8dff21"},
	{536871012, "91c6a0015b3fbf8d8114eaae9a5a1dcac8d8cf92"},
	{1073741760, "c88920b2199526c6c5b20e30ae777496d8299da7"},
	{1073741823, "c26ed5d901765784942c96f1876e0aaa5a6cefce"},
	{1073741824, "efb0e702a91dee9b1f25fa23ed409046f205bfa7"},
	{1073741825, "f1045a882c6aaba0290d183f25c2f308da90feee"},
	{1073741879, "8dd26c77e22e0d3d23979d66d0b85e4df8ff9035"},
	{1073741880, "20f4ea0587eca05ad0fbe3cf2fe26c7531d60df1"},
	{1073741888, "4009abf12f5d745c47689c2111a604fb1cab78a6"},
	{1073741924, "b2d4936a123782567a6b5d83d6d13f70c5b81204"},
	{2147483584, "d936c9466773ae86b065c00ef5f9a024b141f84e"},
	{2147483647, "88318788c6c7416ee3a06a706677039f24cea0e2"},
	{2147483648, "b15323ed5f439552d108b8658c3280e87e36a7fb"},
	{2147483649, "8122ddb89f47a853bb2109509a2e9e3ef784fe99"},
	{2147483703, "ebe31b6647e7ab112b87dae247b480e23ade5dbb"},
	{2147483704, "c37f8331e94a12e63c8bf2d3f200f7326141de32"},
	{2147483712, "acf0d7721c1c1cd0fde6e82ec9ee65bb40fa26cc"},
	{2147483748, "9426293a6e1cc7aa1f3e5ad7591023a4aa78cbe4"},
	{4294967232, "ba64be4b4a77e2aa7bdde8abf2839fbfe4bbe361"},
	{4294967295, "06008eafdfbcef82035a5687f1eeabb65eb73a08"},
	{4294967296, "fb08ee83a4a3ea89d9d62a5286aa88354b75009e"},
	{4294967297, "c15071e970c8953105abca04ee90c9bf065b3b69"},
	{4294967351, "81879d3ffbe6f37e09b3c8fac98a5f45d3fb55c6"},
	{4294967352, "5528d319164c57522764947be164e40f711249a8"},
	{4294967360, "e5d9be751bf504ba60a7aca2a74a565c877d6402"},
	{4294967396, "d6d0d6c7311eb13df7d07555a5d16dfd4137ae4a"},
	{4831838144, "4026aba0cc6238839295154f79a6a25e01af08e7"},
	{4831838207, "1398d52df2ed46c14f6e9f5d84823d50df37f33c"},
	{4831838208, "de51545a4d8fbe042b67dc868364a2c4b40d9dd1"},
	{4831838209, "88d426440c879b7e01e46b7325b7a8b2de44be1d"},
	{4831838263, "7f8076f10a8844be9ae9ae642707d34c2475d1f0"},
	{4831838264, "1d94563a98c3fd32856f47c6aa9517dbcf4b52e9"},
	{4831838272, "2f362140e6be4ef9ccabc92a49595db7ad9cb0bd"},
	{4831838308, "1a799b952421883f49de2cc06f4d676ed735610d"},
}
