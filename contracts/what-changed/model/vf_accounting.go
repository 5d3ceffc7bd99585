//go:build verif

// Generated by /verif/tools/gen_accounting.py.

package model

import vf "github.com/pb33f/libopenapi/test_specs"

func vfBreaking(c *Change) bool { return c != nil && c.Breaking }

func VfInv_PropertyChanges(p *PropertyChanges) {
	vf.Assume(vf.Forall(0, len(p.Changes), func(i int) bool { return p.Changes[i] != nil }))
}

func VfInv_CallbackChanges(x *CallbackChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.ExpressionChanges, func(k string) bool { return x.ExpressionChanges[k] != nil }))
}

func VfPure_CallbackChanges_TotalChanges()         {}
func VfPure_CallbackChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_CallbackChanges
func VfPost_CallbackChanges_GetAllChanges(x *CallbackChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_CallbackChanges(x *CallbackChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ComponentsChanges(x *ComponentsChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.SchemaChanges, func(k string) bool { return x.SchemaChanges[k] != nil }))
	vf.Assume(vf.ForallKeys(x.SecuritySchemeChanges, func(k string) bool { return x.SecuritySchemeChanges[k] != nil }))
}

func VfPure_ComponentsChanges_TotalChanges()         {}
func VfPure_ComponentsChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_ComponentsChanges
func VfPost_ComponentsChanges_GetAllChanges(x *ComponentsChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ComponentsChanges(x *ComponentsChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ContactChanges(x *ContactChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

// vf:opt by=Accounting_ContactChanges
func VfPost_ContactChanges_GetAllChanges(x *ContactChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ContactChanges(x *ContactChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_DiscriminatorChanges(x *DiscriminatorChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.Forall(0, len(x.MappingChanges), func(i int) bool { return x.MappingChanges[i] != nil }))
}

// vf:opt by=Accounting_DiscriminatorChanges
func VfPost_DiscriminatorChanges_GetAllChanges(x *DiscriminatorChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_DiscriminatorChanges(x *DiscriminatorChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_DocumentChanges(x *DocumentChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.Forall(0, len(x.TagChanges), func(i int) bool { return x.TagChanges[i] != nil }))
	vf.Assume(vf.ForallKeys(x.WebhookChanges, func(k string) bool { return x.WebhookChanges[k] != nil }))
	vf.Assume(vf.Forall(0, len(x.ServerChanges), func(i int) bool { return x.ServerChanges[i] != nil }))
	vf.Assume(vf.Forall(0, len(x.SecurityRequirementChanges), func(i int) bool { return x.SecurityRequirementChanges[i] != nil }))
}

func VfPure_DocumentChanges_TotalChanges()         {}
func VfPure_DocumentChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_DocumentChanges
func VfPost_DocumentChanges_GetAllChanges(x *DocumentChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_DocumentChanges(x *DocumentChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_EncodingChanges(x *EncodingChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.HeaderChanges, func(k string) bool { return x.HeaderChanges[k] != nil }))
}

func VfPure_EncodingChanges_TotalChanges()         {}
func VfPure_EncodingChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_EncodingChanges
func VfPost_EncodingChanges_GetAllChanges(x *EncodingChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_EncodingChanges(x *EncodingChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ExampleChanges(x *ExampleChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_ExampleChanges_TotalChanges()         {}
func VfPure_ExampleChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_ExampleChanges
func VfPost_ExampleChanges_GetAllChanges(x *ExampleChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ExampleChanges(x *ExampleChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ExamplesChanges(x *ExamplesChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.Count(x.PropertyChanges.Changes, vfBreaking) == 0)
}

// vf:opt by=Accounting_ExamplesChanges
func VfPost_ExamplesChanges_GetAllChanges(x *ExamplesChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ExamplesChanges(x *ExamplesChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ExtensionChanges(x *ExtensionChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.Count(x.PropertyChanges.Changes, vfBreaking) == 0)
}

// vf:opt by=Accounting_ExtensionChanges
func VfPost_ExtensionChanges_GetAllChanges(x *ExtensionChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ExtensionChanges(x *ExtensionChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ExternalDocChanges(x *ExternalDocChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_ExternalDocChanges_TotalChanges()         {}
func VfPure_ExternalDocChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_ExternalDocChanges
func VfPost_ExternalDocChanges_GetAllChanges(x *ExternalDocChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ExternalDocChanges(x *ExternalDocChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_HeaderChanges(x *HeaderChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.ExamplesChanges, func(k string) bool { return x.ExamplesChanges[k] != nil }))
	vf.Assume(vf.ForallKeys(x.ContentChanges, func(k string) bool { return x.ContentChanges[k] != nil }))
}

func VfPure_HeaderChanges_TotalChanges()         {}
func VfPure_HeaderChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_HeaderChanges
func VfPost_HeaderChanges_GetAllChanges(x *HeaderChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_HeaderChanges(x *HeaderChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_InfoChanges(x *InfoChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_InfoChanges_TotalChanges()         {}
func VfPure_InfoChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_InfoChanges
func VfPost_InfoChanges_GetAllChanges(x *InfoChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_InfoChanges(x *InfoChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ItemsChanges(x *ItemsChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_ItemsChanges_TotalChanges()         {}
func VfPure_ItemsChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_ItemsChanges
func VfPost_ItemsChanges_GetAllChanges(x *ItemsChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ItemsChanges(x *ItemsChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_LicenseChanges(x *LicenseChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_LicenseChanges_TotalChanges()         {}
func VfPure_LicenseChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_LicenseChanges
func VfPost_LicenseChanges_GetAllChanges(x *LicenseChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_LicenseChanges(x *LicenseChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_LinkChanges(x *LinkChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_LinkChanges_TotalChanges()         {}
func VfPure_LinkChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_LinkChanges
func VfPost_LinkChanges_GetAllChanges(x *LinkChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_LinkChanges(x *LinkChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_MediaTypeChanges(x *MediaTypeChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.ExampleChanges, func(k string) bool { return x.ExampleChanges[k] != nil }))
	vf.Assume(vf.ForallKeys(x.EncodingChanges, func(k string) bool { return x.EncodingChanges[k] != nil }))
	vf.Assume(vf.ForallKeys(x.ItemEncodingChanges, func(k string) bool { return x.ItemEncodingChanges[k] != nil }))
}

func VfPure_MediaTypeChanges_TotalChanges()         {}
func VfPure_MediaTypeChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_MediaTypeChanges
func VfPost_MediaTypeChanges_GetAllChanges(x *MediaTypeChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_MediaTypeChanges(x *MediaTypeChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_OAuthFlowsChanges(x *OAuthFlowsChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_OAuthFlowsChanges_TotalChanges()         {}
func VfPure_OAuthFlowsChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_OAuthFlowsChanges
func VfPost_OAuthFlowsChanges_GetAllChanges(x *OAuthFlowsChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_OAuthFlowsChanges(x *OAuthFlowsChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_OAuthFlowChanges(x *OAuthFlowChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_OAuthFlowChanges_TotalChanges()         {}
func VfPure_OAuthFlowChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_OAuthFlowChanges
func VfPost_OAuthFlowChanges_GetAllChanges(x *OAuthFlowChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_OAuthFlowChanges(x *OAuthFlowChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_OperationChanges(x *OperationChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.Forall(0, len(x.ParameterChanges), func(i int) bool { return x.ParameterChanges[i] != nil }))
	vf.Assume(vf.Forall(0, len(x.SecurityRequirementChanges), func(i int) bool { return x.SecurityRequirementChanges[i] != nil }))
	vf.Assume(vf.Forall(0, len(x.ServerChanges), func(i int) bool { return x.ServerChanges[i] != nil }))
	vf.Assume(vf.ForallKeys(x.CallbackChanges, func(k string) bool { return x.CallbackChanges[k] != nil }))
}

func VfPure_OperationChanges_TotalChanges()         {}
func VfPure_OperationChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_OperationChanges
func VfPost_OperationChanges_GetAllChanges(x *OperationChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_OperationChanges(x *OperationChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ParameterChanges(x *ParameterChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.ExamplesChanges, func(k string) bool { return x.ExamplesChanges[k] != nil }))
	vf.Assume(vf.ForallKeys(x.ContentChanges, func(k string) bool { return x.ContentChanges[k] != nil }))
}

func VfPure_ParameterChanges_TotalChanges()         {}
func VfPure_ParameterChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_ParameterChanges
func VfPost_ParameterChanges_GetAllChanges(x *ParameterChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ParameterChanges(x *ParameterChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_PathItemChanges(x *PathItemChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.AdditionalOperationChanges, func(k string) bool { return x.AdditionalOperationChanges[k] != nil }))
	vf.Assume(vf.Forall(0, len(x.ServerChanges), func(i int) bool { return x.ServerChanges[i] != nil }))
	vf.Assume(vf.Forall(0, len(x.ParameterChanges), func(i int) bool { return x.ParameterChanges[i] != nil }))
}

func VfPure_PathItemChanges_TotalChanges()         {}
func VfPure_PathItemChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_PathItemChanges
func VfPost_PathItemChanges_GetAllChanges(x *PathItemChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_PathItemChanges(x *PathItemChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_PathsChanges(x *PathsChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.PathItemsChanges, func(k string) bool { return x.PathItemsChanges[k] != nil }))
}

func VfPure_PathsChanges_TotalChanges()         {}
func VfPure_PathsChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_PathsChanges
func VfPost_PathsChanges_GetAllChanges(x *PathsChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_PathsChanges(x *PathsChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_RequestBodyChanges(x *RequestBodyChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.ContentChanges, func(k string) bool { return x.ContentChanges[k] != nil }))
}

func VfPure_RequestBodyChanges_TotalChanges()         {}
func VfPure_RequestBodyChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_RequestBodyChanges
func VfPost_RequestBodyChanges_GetAllChanges(x *RequestBodyChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_RequestBodyChanges(x *RequestBodyChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ResponseChanges(x *ResponseChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.HeadersChanges, func(k string) bool { return x.HeadersChanges[k] != nil }))
	vf.Assume(vf.ForallKeys(x.ContentChanges, func(k string) bool { return x.ContentChanges[k] != nil }))
	vf.Assume(vf.ForallKeys(x.LinkChanges, func(k string) bool { return x.LinkChanges[k] != nil }))
}

func VfPure_ResponseChanges_TotalChanges()         {}
func VfPure_ResponseChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_ResponseChanges
func VfPost_ResponseChanges_GetAllChanges(x *ResponseChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ResponseChanges(x *ResponseChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ResponsesChanges(x *ResponsesChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.ResponseChanges, func(k string) bool { return x.ResponseChanges[k] != nil }))
}

func VfPure_ResponsesChanges_TotalChanges()         {}
func VfPure_ResponsesChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_ResponsesChanges
func VfPost_ResponsesChanges_GetAllChanges(x *ResponsesChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ResponsesChanges(x *ResponsesChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_SchemaChanges(x *SchemaChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.Forall(0, len(x.AllOfChanges), func(i int) bool { return x.AllOfChanges[i] != nil }))
	vf.Assume(vf.Forall(0, len(x.AnyOfChanges), func(i int) bool { return x.AnyOfChanges[i] != nil }))
	vf.Assume(vf.Forall(0, len(x.OneOfChanges), func(i int) bool { return x.OneOfChanges[i] != nil }))
	vf.Assume(vf.Forall(0, len(x.PrefixItemsChanges), func(i int) bool { return x.PrefixItemsChanges[i] != nil }))
	vf.Assume(vf.ForallKeys(x.SchemaPropertyChanges, func(k string) bool { return x.SchemaPropertyChanges[k] != nil }))
	vf.Assume(vf.ForallKeys(x.DependentSchemasChanges, func(k string) bool { return x.DependentSchemasChanges[k] != nil }))
	vf.Assume(vf.Forall(0, len(x.DependentRequiredChanges), func(i int) bool { return x.DependentRequiredChanges[i] != nil }))
	vf.Assume(vf.ForallKeys(x.PatternPropertiesChanges, func(k string) bool { return x.PatternPropertiesChanges[k] != nil }))
	vf.Assume(vf.Forall(0, len(x.VocabularyChanges), func(i int) bool { return x.VocabularyChanges[i] != nil }))
}

func VfPure_SchemaChanges_TotalChanges()         {}
func VfPure_SchemaChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_SchemaChanges
func VfPost_SchemaChanges_GetAllChanges(x *SchemaChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_SchemaChanges(x *SchemaChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	if len(x.AllOfChanges) == 0 {
		vf.Assert("breaking total equals number of listed breaking changes when allOf is unchanged", vf.Count(res, vfBreaking) == b)
	}
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ScopesChanges(x *ScopesChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_ScopesChanges_TotalChanges()         {}
func VfPure_ScopesChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_ScopesChanges
func VfPost_ScopesChanges_GetAllChanges(x *ScopesChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ScopesChanges(x *ScopesChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_SecurityRequirementChanges(x *SecurityRequirementChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

// vf:opt by=Accounting_SecurityRequirementChanges
func VfPost_SecurityRequirementChanges_GetAllChanges(x *SecurityRequirementChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_SecurityRequirementChanges(x *SecurityRequirementChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_SecuritySchemeChanges(x *SecuritySchemeChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_SecuritySchemeChanges_TotalChanges()         {}
func VfPure_SecuritySchemeChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_SecuritySchemeChanges
func VfPost_SecuritySchemeChanges_GetAllChanges(x *SecuritySchemeChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_SecuritySchemeChanges(x *SecuritySchemeChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ServerChanges(x *ServerChanges) {
	vf.Assume(x.PropertyChanges != nil)
	vf.Assume(vf.ForallKeys(x.ServerVariableChanges, func(k string) bool { return x.ServerVariableChanges[k] != nil }))
}

func VfPure_ServerChanges_TotalChanges()         {}
func VfPure_ServerChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_ServerChanges
func VfPost_ServerChanges_GetAllChanges(x *ServerChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ServerChanges(x *ServerChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_ServerVariableChanges(x *ServerVariableChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

// vf:opt by=Accounting_ServerVariableChanges
func VfPost_ServerVariableChanges_GetAllChanges(x *ServerVariableChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_ServerVariableChanges(x *ServerVariableChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_TagChanges(x *TagChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_TagChanges_TotalChanges()         {}
func VfPure_TagChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_TagChanges
func VfPost_TagChanges_GetAllChanges(x *TagChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_TagChanges(x *TagChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}

func VfInv_XMLChanges(x *XMLChanges) {
	vf.Assume(x.PropertyChanges != nil)
}

func VfPure_XMLChanges_TotalChanges()         {}
func VfPure_XMLChanges_TotalBreakingChanges() {}

// vf:opt by=Accounting_XMLChanges
func VfPost_XMLChanges_GetAllChanges(x *XMLChanges, res []*Change) {
	vf.Ensure("total", len(res) == x.TotalChanges())
	vf.Ensure("breaking", vf.Count(res, vfBreaking) == x.TotalBreakingChanges())
}

// vf:opt prop=P01 noinv
func VfLemma_Accounting_XMLChanges(x *XMLChanges) {
	vf.Assume(x != nil)
	t, b := x.TotalChanges(), x.TotalBreakingChanges()
	res := x.GetAllChanges()
	vf.Assert("total equals number of listed changes", len(res) == t)
	vf.Assert("breaking total equals number of listed breaking changes", vf.Count(res, vfBreaking) == b)
}
