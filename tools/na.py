NA["Z01"] = "sdk/token/paseto does not compile at this commit (missing dependency), so there is no code to encode"
