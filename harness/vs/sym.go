//go:build gosym

package vs

func InstallHooks()      {}
func same(a, b any) bool { return reflectSame(a, b) }
func snapshot(a any) any { return a }
