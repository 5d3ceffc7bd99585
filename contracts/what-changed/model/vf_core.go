//go:build verif

package model

import vf "github.com/pb33f/libopenapi/test_specs"

func VfPure_CountBreakingChanges() {}

func VfPre_CountBreakingChanges(changes []*Change) {
	vf.Require("changes are not nil", vf.Forall(0, len(changes), func(i int) bool { return changes[i] != nil }))
}

// vf:opt prop=P01
func VfPost_CountBreakingChanges(changes []*Change, res int) {
	vf.Ensure("counts the changes flagged breaking", res == vf.Count(changes, vfBreaking))
}
