//go:build verif

package model

import (
	"github.com/pb33f/libopenapi/datamodel/low/base"
	vf "github.com/pb33f/libopenapi/test_specs"
	"github.com/pb33f/libopenapi/utils"
	"go.yaml.in/yaml/v4"
)

// vfNode: an alias has a target.
func vfNode(n *yaml.Node) bool {
	return n == nil || n.Kind != yaml.AliasNode || n.Alias != nil
}

// vfValue: the property has a value on this side (an empty scalar is none; an empty list or map is one).
func vfValue(n *yaml.Node) bool {
	return n != nil && (n.Value != "" || utils.IsNodeArray(n) || utils.IsNodeMap(n))
}

// Comparing two YAML trees is read-only; its result is a function of the two trees.
//
// vf:opt always stable
func VfPure_compareYAMLNodesForChanges() {}

// The active rules do not change during a comparison.
//
// vf:opt always stable
func VfPure_GetActiveBreakingRulesConfig() {}

// vf:opt always stable
func VfPure_BreakingRulesConfig_GetRule() {}

func VfPre_checkLocation(ctx *ChangeContext, hs base.HasIndex) {
	vf.Require("both are there", ctx != nil && hs != nil)
}

// vf:opt prop=P02 noinv
func VfMod_checkLocation(ctx *ChangeContext, hs base.HasIndex) {
	vf.ModCell(&ctx.DocumentLocation)
}

func VfOld_CreateChange(changes *[]*Change, changeType int, property string, l, r *yaml.Node, breaking bool, orig, new any) []*Change {
	return *changes
}

func VfPre_CreateChange(changes *[]*Change, changeType int, property string, l, r *yaml.Node, breaking bool, orig, new any) {
	vf.Require("a list to add to, aliases with a target", changes != nil && vfNode(l) && vfNode(r))
}

// vf:opt noinv
func VfMod_CreateChange(changes *[]*Change, changeType int, property string, l, r *yaml.Node, breaking bool, orig, new any) {
	vf.ModCell(changes)
}

func vfText2(n *yaml.Node, obj any) string {
	if n != nil {
		return n.Value
	}
	if s, ok := obj.(string); ok {
		return s
	}
	return ""
}

// vf:opt prop=P02 noinv
func VfPost_CreateChange(old []*Change, changes *[]*Change, changeType int, property string, l, r *yaml.Node, breaking bool, orig, new any, res *[]*Change) {
	after := *changes
	vf.Ensure("same list", res == changes)
	vf.Ensure("one more", len(after) == len(old)+1)
	vf.Ensure("earlier changes stay", vf.Forall(0, len(old), func(i int) bool { return after[i] == old[i] }))
	c := after[len(old)]
	vf.Ensure("a new change", c != nil && vf.IsFresh(c))
	vf.Ensure("kind and flag", c.ChangeType == changeType && c.Property == property && c.Breaking == breaking)
	vf.Ensure("texts", c.Original == vfText2(l, orig) && c.New == vfText2(r, new))
	vf.Ensure("objects", c.OriginalObject == orig && c.NewObject == new)
	vf.Ensure("context", c.Context != nil && vf.IsFresh(c.Context))
	vf.Ensure("left line is given when there is one", vf.Iff(l != nil, c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil))
	if l != nil && c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil {
		vf.Ensure("left line", *c.Context.OriginalLine == l.Line && *c.Context.OriginalColumn == l.Column)
	}
	vf.Ensure("right line is given when there is one", vf.Iff(r != nil, c.Context.NewLine != nil && c.Context.NewColumn != nil))
	if r != nil && c.Context.NewLine != nil && c.Context.NewColumn != nil {
		vf.Ensure("right line", *c.Context.NewLine == r.Line && *c.Context.NewColumn == r.Column)
	}
}

func VfOld_CreateChangeWithEncoding(changes *[]*Change, changeType int, property string, l, r *yaml.Node, breaking bool, orig, new any) []*Change {
	return *changes
}

func VfPre_CreateChangeWithEncoding(changes *[]*Change, changeType int, property string, l, r *yaml.Node, breaking bool, orig, new any) {
	vf.Require("a list to add to, aliases with a target", changes != nil && vfNode(l) && vfNode(r))
}

// vf:opt noinv
func VfMod_CreateChangeWithEncoding(changes *[]*Change, changeType int, property string, l, r *yaml.Node, breaking bool, orig, new any) {
	vf.ModCell(changes)
}

// vf:opt prop=P02 noinv
func VfPost_CreateChangeWithEncoding(old []*Change, changes *[]*Change, changeType int, property string, l, r *yaml.Node, breaking bool, orig, new any, res *[]*Change) {
	after := *changes
	vf.Ensure("same list", res == changes)
	vf.Ensure("one more", len(after) == len(old)+1)
	vf.Ensure("earlier changes stay", vf.Forall(0, len(old), func(i int) bool { return after[i] == old[i] }))
	c := after[len(old)]
	vf.Ensure("a new change", c != nil && vf.IsFresh(c))
	vf.Ensure("kind and flag", c.ChangeType == changeType && c.Property == property && c.Breaking == breaking)
	vf.Ensure("texts", c.Original == vfText2(l, orig) && c.New == vfText2(r, new))
	vf.Ensure("objects", c.OriginalObject == orig && c.NewObject == new)
	vf.Ensure("context", c.Context != nil && vf.IsFresh(c.Context))
	vf.Ensure("left line is given when there is one", vf.Iff(l != nil, c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil))
	if l != nil && c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil {
		vf.Ensure("left line", *c.Context.OriginalLine == l.Line && *c.Context.OriginalColumn == l.Column)
	}
	vf.Ensure("right line is given when there is one", vf.Iff(r != nil, c.Context.NewLine != nil && c.Context.NewColumn != nil))
	if r != nil && c.Context.NewLine != nil && c.Context.NewColumn != nil {
		vf.Ensure("right line", *c.Context.NewLine == r.Line && *c.Context.NewColumn == r.Column)
	}
}

func VfPre_checkForRemovalInternal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vf.Require("a list to add to, aliases with a target", changes != nil && vfNode(l) && vfNode(r))
}

// vf:opt noinv
func VfMod_checkForRemovalInternal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vf.ModCell(changes)
}

func VfOld_checkForRemovalInternal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) ([]*Change, bool) {
	return *changes, false
}

// vf:opt by=Removal
func VfPost_checkForRemovalInternal(old []*Change, same bool, l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vfListedRemoval(old, same, l, r, label, changes, breaking, orig, new)
}

func vfListedRemoval(old []*Change, same bool, l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any) {
	after := *changes
	cond := vfRemoved(l, r)
	vf.Ensure("nothing listed otherwise", vf.Implies(!cond, len(after) == len(old)))
	vf.Ensure("one change listed", vf.Implies(cond, len(after) == len(old)+1))
	vf.Ensure("earlier changes stay", vf.Forall(0, len(old), func(i int) bool { return after[i] == old[i] }))
	if cond {
		c := after[len(old)]
		vf.Ensure("a new change", c != nil && vf.IsFresh(c))
		vf.Ensure("kind and flag", c.ChangeType == PropertyRemoved && c.Property == label && c.Breaking == breaking)
		vf.Ensure("original text", c.Original == vfText2(l, orig))
		vf.Ensure("new text", (r == nil || c.New == vfText2(r, nil)))
		vf.Ensure("objects", c.OriginalObject == orig && (c.NewObject == new || r == nil))
		vf.Ensure("context", c.Context != nil && vf.IsFresh(c.Context))
		vf.Ensure("left line is given when there is one", vf.Iff(l != nil, c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil))
		if l != nil && c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil {
			vf.Ensure("left line", *c.Context.OriginalLine == l.Line && *c.Context.OriginalColumn == l.Column)
		}
		vf.Ensure("right line is given when there is one", vf.Iff(r != nil, c.Context.NewLine != nil && c.Context.NewColumn != nil))
		if r != nil && c.Context.NewLine != nil && c.Context.NewColumn != nil {
			vf.Ensure("right line", *c.Context.NewLine == r.Line && *c.Context.NewColumn == r.Column)
		}
	}
}

// vf:opt prop=P02 noinv
func VfLemma_Removal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vf.Assume(changes != nil && vfNode(l) && vfNode(r))
	old, same := VfOld_checkForRemovalInternal(l, r, label, changes, breaking, orig, new, withEncoding)
	checkForRemovalInternal[any](l, r, label, changes, breaking, orig, new, withEncoding)
	vfListedRemoval(old, same, l, r, label, changes, breaking, orig, new)
}

func VfPre_checkForAdditionInternal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vf.Require("a list to add to, aliases with a target", changes != nil && vfNode(l) && vfNode(r))
}

// vf:opt noinv
func VfMod_checkForAdditionInternal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vf.ModCell(changes)
}

func VfOld_checkForAdditionInternal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) ([]*Change, bool) {
	return *changes, false
}

// vf:opt by=Addition
func VfPost_checkForAdditionInternal(old []*Change, same bool, l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vfListedAddition(old, same, l, r, label, changes, breaking, orig, new)
}

func vfListedAddition(old []*Change, same bool, l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any) {
	after := *changes
	cond := !vfValue(l) && vfValue(r)
	vf.Ensure("nothing listed otherwise", vf.Implies(!cond, len(after) == len(old)))
	vf.Ensure("one change listed", vf.Implies(cond, len(after) == len(old)+1))
	vf.Ensure("earlier changes stay", vf.Forall(0, len(old), func(i int) bool { return after[i] == old[i] }))
	if cond {
		c := after[len(old)]
		vf.Ensure("a new change", c != nil && vf.IsFresh(c))
		vf.Ensure("kind and flag", c.ChangeType == PropertyAdded && c.Property == label && c.Breaking == breaking)
		vf.Ensure("original text", c.Original == vfText2(l, orig))
		vf.Ensure("new text", (r == nil || c.New == vfText2(r, nil)) && vf.Implies(r == nil, c.New == vfText2(r, new)))
		vf.Ensure("objects", c.OriginalObject == orig && c.NewObject == new)
		vf.Ensure("context", c.Context != nil && vf.IsFresh(c.Context))
		vf.Ensure("left line is given when there is one", vf.Iff(l != nil, c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil))
		if l != nil && c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil {
			vf.Ensure("left line", *c.Context.OriginalLine == l.Line && *c.Context.OriginalColumn == l.Column)
		}
		vf.Ensure("right line is given when there is one", vf.Iff(r != nil, c.Context.NewLine != nil && c.Context.NewColumn != nil))
		if r != nil && c.Context.NewLine != nil && c.Context.NewColumn != nil {
			vf.Ensure("right line", *c.Context.NewLine == r.Line && *c.Context.NewColumn == r.Column)
		}
	}
}

// vf:opt prop=P02 noinv
func VfLemma_Addition(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vf.Assume(changes != nil && vfNode(l) && vfNode(r))
	old, same := VfOld_checkForAdditionInternal(l, r, label, changes, breaking, orig, new, withEncoding)
	checkForAdditionInternal[any](l, r, label, changes, breaking, orig, new, withEncoding)
	vfListedAddition(old, same, l, r, label, changes, breaking, orig, new)
}

func VfPre_checkForModificationInternal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vf.Require("a list to add to, aliases with a target", changes != nil && vfNode(l) && vfNode(r))
}

// vf:opt noinv
func VfMod_checkForModificationInternal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vf.ModCell(changes)
}

func VfOld_checkForModificationInternal(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) ([]*Change, bool) {
	return *changes, l != nil && r != nil && compareYAMLNodesForChanges(l, r)
}

// vf:opt by=Modification
func VfPost_checkForModificationInternal(old []*Change, same bool, l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vfListedModification(old, same, l, r, label, changes, breaking, orig, new)
}

func vfListedModification(old []*Change, same bool, l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any) {
	after := *changes
	cond := vfModified(l, r, same)
	vf.Ensure("nothing listed otherwise", vf.Implies(!cond, len(after) == len(old)))
	vf.Ensure("one change listed", vf.Implies(cond, len(after) == len(old)+1))
	vf.Ensure("earlier changes stay", vf.Forall(0, len(old), func(i int) bool { return after[i] == old[i] }))
	if cond {
		c := after[len(old)]
		vf.Ensure("a new change", c != nil && vf.IsFresh(c))
		vf.Ensure("kind and flag", c.ChangeType == Modified && c.Property == label && c.Breaking == breaking)
		vf.Ensure("original text", c.Original == vfText2(l, orig))
		vf.Ensure("new text", (r == nil || c.New == vfText2(r, nil)) && vf.Implies(r == nil, c.New == vfText2(r, new)))
		vf.Ensure("objects", c.OriginalObject == orig && c.NewObject == new)
		vf.Ensure("context", c.Context != nil && vf.IsFresh(c.Context))
		vf.Ensure("left line is given when there is one", vf.Iff(l != nil, c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil))
		if l != nil && c.Context.OriginalLine != nil && c.Context.OriginalColumn != nil {
			vf.Ensure("left line", *c.Context.OriginalLine == l.Line && *c.Context.OriginalColumn == l.Column)
		}
		vf.Ensure("right line is given when there is one", vf.Iff(r != nil, c.Context.NewLine != nil && c.Context.NewColumn != nil))
		if r != nil && c.Context.NewLine != nil && c.Context.NewColumn != nil {
			vf.Ensure("right line", *c.Context.NewLine == r.Line && *c.Context.NewColumn == r.Column)
		}
	}
}

// vf:opt prop=P02 noinv
func VfLemma_Modification(l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new any, withEncoding bool) {
	vf.Assume(changes != nil && vfNode(l) && vfNode(r))
	old, same := VfOld_checkForModificationInternal(l, r, label, changes, breaking, orig, new, withEncoding)
	checkForModificationInternal[any](l, r, label, changes, breaking, orig, new, withEncoding)
	vfListedModification(old, same, l, r, label, changes, breaking, orig, new)
}

// vfRemoved: a value on the left and none on the right, or nothing at all any more.
func vfRemoved(l, r *yaml.Node) bool {
	return l != nil && r == nil || l != nil && l.Value != "" && !vfValue(r)
}

// vfModified: both sides are there, and differ.
func vfModified(l, r *yaml.Node, same bool) bool {
	if l == nil || r == nil {
		return false
	}
	if l.Value != "" && r.Value != "" {
		return !same
	}
	la, ra, lm, rm := utils.IsNodeArray(l), utils.IsNodeArray(r), utils.IsNodeMap(l), utils.IsNodeMap(r)
	if la != ra || lm != rm {
		return true
	}
	return (la && len(l.Content) != len(r.Content)) || (la || lm) && !same
}

func vfRule(rule *BreakingChangeRule, n *PropertyCheck, kind int) bool {
	if n.Component == "" || rule == nil {
		return n.Breaking
	}
	switch kind {
	case PropertyAdded:
		return rule.Added != nil && *rule.Added
	case PropertyRemoved:
		return rule.Removed != nil && *rule.Removed
	}
	return rule.Modified != nil && *rule.Modified
}

// One compared property: what the report lists for it.
//
// vf:opt prop=P02 noinv
func VfLemma_OneProperty(n *PropertyCheck) {
	vf.Assume(n != nil && n.Changes != nil && vfNode(n.LeftNode) && vfNode(n.RightNode))
	l, r := n.LeftNode, n.RightNode
	before := *n.Changes
	same := l != nil && r != nil && compareYAMLNodesForChanges(l, r)
	rule := GetActiveBreakingRulesConfig().GetRule(n.Component, n.Property)
	bAdd, bRem, bMod := vfRule(rule, n, PropertyAdded), vfRule(rule, n, PropertyRemoved), vfRule(rule, n, Modified)
	lt, rt := vfText2(l, n.Original), vfText2(r, n.New)
	lv, rv := vfValue(l), vfValue(r)
	CheckProperties([]*PropertyCheck{n})
	after := *n.Changes
	vf.Assert("earlier changes stay", len(after) >= len(before) &&
		vf.Forall(0, len(before), func(i int) bool { return after[i] == before[i] }))
	vf.Assert("unchanged: nothing listed", vf.Implies(lv && rv && same && l.Value != "" && r.Value != "" || l == nil && !rv, len(after) == len(before)))
	more := len(after) > len(before)
	vf.Assert("a value on one side only: a change is listed", vf.Implies(lv != rv, more))
	vf.Assert("two different values: a change is listed", vf.Implies(lv && rv && !same, more))
	if more {
		c := after[len(before)]
		vf.Assert("carries the property", c.Property == n.Label)
		vf.Assert("carries both texts", vf.Implies(r != nil, c.Original == lt && c.New == rt))
		vf.Assert("carries the object", c.OriginalObject == n.Original)
		vf.Assert("added", vf.Implies(!lv && rv, c.ChangeType == PropertyAdded && c.Breaking == bAdd))
		vf.Assert("removed", vf.Implies(lv && !rv && (r == nil || lt != ""), c.ChangeType == PropertyRemoved && c.Breaking == bRem))
		vf.Assert("modified", vf.Implies(lv && rv && !same, c.ChangeType == Modified && c.Breaking == bMod && len(after) == len(before)+1))
	}
}

// A user's rule overrides the rule it is merged into kind by kind; neither of
// the two is written to.
//
// vf:opt prop=P02
func VfPost_mergeRule(base, override, r *BreakingChangeRule) {
	vf.Ensure("no override leaves the base", vf.Implies(override == nil, r == base))
	vf.Ensure("no base leaves the override", vf.Implies(override != nil && base == nil, r == override))
	if override == nil || base == nil {
		return
	}
	vf.Ensure("a merged rule exists", r != nil)
	vf.Ensure("the merged rule is new", r != base && r != override)
	if r == nil {
		return
	}
	pick := func(o, b *bool) *bool {
		if o != nil {
			return o
		}
		return b
	}
	vf.Ensure("added", r.Added == pick(override.Added, base.Added))
	vf.Ensure("modified", r.Modified == pick(override.Modified, base.Modified))
	vf.Ensure("removed", r.Removed == pick(override.Removed, base.Removed))
}

// Whether a kind of change is breaking is what the rule found says; no rule
// or an unset kind is not breaking.
//
// vf:opt prop=P02
func VfPost_BreakingRulesConfig_IsBreaking(c *BreakingRulesConfig, component, property, changeType string, r bool) {
	rule := c.GetRule(component, property)
	if rule == nil {
		vf.Ensure("no rule is not breaking", !r)
		return
	}
	switch changeType {
	case ChangeTypeAdded:
		vf.Ensure("added", r == (rule.Added != nil && *rule.Added))
	case ChangeTypeModified:
		vf.Ensure("modified", r == (rule.Modified != nil && *rule.Modified))
	case ChangeTypeRemoved:
		vf.Ensure("removed", r == (rule.Removed != nil && *rule.Removed))
	default:
		vf.Ensure("unknown kind of change", !r)
	}
}

// vf:opt prop=P02
func VfPre_BreakingRulesConfig_IsBreaking(c *BreakingRulesConfig, component, property, changeType string) {
	vf.Require("a configuration", c != nil)
}
