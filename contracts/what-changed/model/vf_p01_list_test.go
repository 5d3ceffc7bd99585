//go:build verif

// Generated by /verif/tools/gen_accounting.py.

package model

var vfAccountingLemmas = []struct {
	name string
	f    any
}{
	{"Accounting_CallbackChanges", VfLemma_Accounting_CallbackChanges},
	{"Accounting_ComponentsChanges", VfLemma_Accounting_ComponentsChanges},
	{"Accounting_ContactChanges", VfLemma_Accounting_ContactChanges},
	{"Accounting_DiscriminatorChanges", VfLemma_Accounting_DiscriminatorChanges},
	{"Accounting_DocumentChanges", VfLemma_Accounting_DocumentChanges},
	{"Accounting_EncodingChanges", VfLemma_Accounting_EncodingChanges},
	{"Accounting_ExampleChanges", VfLemma_Accounting_ExampleChanges},
	{"Accounting_ExamplesChanges", VfLemma_Accounting_ExamplesChanges},
	{"Accounting_ExtensionChanges", VfLemma_Accounting_ExtensionChanges},
	{"Accounting_ExternalDocChanges", VfLemma_Accounting_ExternalDocChanges},
	{"Accounting_HeaderChanges", VfLemma_Accounting_HeaderChanges},
	{"Accounting_InfoChanges", VfLemma_Accounting_InfoChanges},
	{"Accounting_ItemsChanges", VfLemma_Accounting_ItemsChanges},
	{"Accounting_LicenseChanges", VfLemma_Accounting_LicenseChanges},
	{"Accounting_LinkChanges", VfLemma_Accounting_LinkChanges},
	{"Accounting_MediaTypeChanges", VfLemma_Accounting_MediaTypeChanges},
	{"Accounting_OAuthFlowsChanges", VfLemma_Accounting_OAuthFlowsChanges},
	{"Accounting_OAuthFlowChanges", VfLemma_Accounting_OAuthFlowChanges},
	{"Accounting_OperationChanges", VfLemma_Accounting_OperationChanges},
	{"Accounting_ParameterChanges", VfLemma_Accounting_ParameterChanges},
	{"Accounting_PathItemChanges", VfLemma_Accounting_PathItemChanges},
	{"Accounting_PathsChanges", VfLemma_Accounting_PathsChanges},
	{"Accounting_RequestBodyChanges", VfLemma_Accounting_RequestBodyChanges},
	{"Accounting_ResponseChanges", VfLemma_Accounting_ResponseChanges},
	{"Accounting_ResponsesChanges", VfLemma_Accounting_ResponsesChanges},
	{"Accounting_SchemaChanges", VfLemma_Accounting_SchemaChanges},
	{"Accounting_ScopesChanges", VfLemma_Accounting_ScopesChanges},
	{"Accounting_SecurityRequirementChanges", VfLemma_Accounting_SecurityRequirementChanges},
	{"Accounting_SecuritySchemeChanges", VfLemma_Accounting_SecuritySchemeChanges},
	{"Accounting_ServerChanges", VfLemma_Accounting_ServerChanges},
	{"Accounting_ServerVariableChanges", VfLemma_Accounting_ServerVariableChanges},
	{"Accounting_TagChanges", VfLemma_Accounting_TagChanges},
	{"Accounting_XMLChanges", VfLemma_Accounting_XMLChanges},
}
