package stub

import (
	"strings"

	"zntr.io/solid/zzverif/vs"
)

// Shapes is the number of shapes of Long.
const Shapes = 3

// Bounds of Long: 0+600, 600+0 and 2500+2500 constant characters around one of 4 characters.
var pads = [Shapes][2]int{{0, 600}, {600, 0}, {2500, 2500}}

// Long is a long text of URL characters, of which the solver chooses the first, the last or a middle one.
func Long(shape int, label string) string { return LongAs(shape, label, label) }

// LongAs is a long text like that of another label, except for the chosen character.
func LongAs(shape int, like, label string) string {
	pad := func(n int) string { return strings.Repeat(like+"-", n/(len(like)+1)+1)[:n] }
	return pad(pads[shape][0]) + vs.StrIn(label, 1, 1, "aAb~") + pad(pads[shape][1])
}

// LongScope is a scope of many words: openid, constant ones, one with a chosen character, and offline_access if asked.
func LongScope(label string, offline bool) string {
	w := []string{"openid"}
	for i := 0; i < 60; i++ {
		w = append(w, "scope:"+string(rune('a'+i%26))+strings.Repeat("x", i))
	}
	w = append(w, "last:"+vs.StrIn(label, 1, 1, "aAb~"))
	if offline {
		w = append(w, "offline_access")
	}
	return strings.Join(w, " ")
}
