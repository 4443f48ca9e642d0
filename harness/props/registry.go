// Code generated by genreg.sh. DO NOT EDIT.

package props

// Registry maps the name of a harness function to the function.
var Registry = map[string]func(){
	"C01_both":               C01_both,
	"C01_secret":             C01_secret,
	"C02_dispatch":           C02_dispatch,
	"C02_real":               C02_real,
	"C03_client":             C03_client,
	"C03_grant":              C03_grant,
	"C04_code":               C04_code,
	"C05_disable":            C05_disable,
	"C05_history":            C05_history,
	"C05_interleaved":        C05_interleaved,
	"C06_encode":             C06_encode,
	"C06_grant":              C06_grant,
	"C06_s256":               C06_s256,
	"C07_refresh":            C07_refresh,
	"C08_client":             C08_client,
	"C08_jwt":                C08_jwt,
	"C08_password":           C08_password,
	"C09_auth":               C09_auth,
	"C09_errors":             C09_errors,
	"C09_success":            C09_success,
	"C09_values":             C09_values,
	"C10_assertion":          C10_assertion,
	"C10_grants":             C10_grants,
	"C10_key":                C10_key,
	"C11_code":               C11_code,
	"C11_unable":             C11_unable,
	"C12_gen":                C12_gen,
	"C12_hash":               C12_hash,
	"C12_unknown":            C12_unknown,
	"C13_live":               C13_live,
	"C13_where":              C13_where,
	"C14_escaped":            C14_escaped,
	"C14_paths":              C14_paths,
	"C15_all":                C15_all,
	"C15_text":               C15_text,
	"C15_unicode":            C15_unicode,
	"C16_registered":         C16_registered,
	"C16_uri":                C16_uri,
	"C17_complete":           C17_complete,
	"C17_levels":             C17_levels,
	"C17_mode":               C17_mode,
	"C18_endpoint":           C18_endpoint,
	"C18_judge":              C18_judge,
	"C19_id_token_hint":      C19_id_token_hint,
	"C19_prompt":             C19_prompt,
	"C19_session":            C19_session,
	"C20_interactive":        C20_interactive,
	"C21_interactive":        C21_interactive,
	"C21_none":               C21_none,
	"C21_syntax":             C21_syntax,
	"C22_request":            C22_request,
	"C22_scope":              C22_scope,
	"C22_words":              C22_words,
	"C23_complete":           C23_complete,
	"C23_direct":             C23_direct,
	"C24_complete":           C24_complete,
	"C24_handle":             C24_handle,
	"C25_any":                C25_any,
	"C25_bytes":              C25_bytes,
	"C26_any":                C26_any,
	"C26_bytes":              C26_bytes,
	"C27_roundtrip":          C27_roundtrip,
	"C27_unicode":            C27_unicode,
	"C28_prompt":             C28_prompt,
	"C28_prompt_validate":    C28_prompt_validate,
	"C28_scope_all":          C28_scope_all,
	"C28_scope_include":      C28_scope_include,
	"C28_scope_remove":       C28_scope_remove,
	"C28_scope_remove_named": C28_scope_remove_named,
	"C28_scope_same":         C28_scope_same,
	"C28_unicode":            C28_unicode,
	"C29_form":               C29_form,
	"C29_helper":             C29_helper,
	"C30_render":             C30_render,
	"C30_uri":                C30_uri,
	"C31_level":              C31_level,
	"C32_endpoint":           C32_endpoint,
	"C32_private":            C32_private,
	"C32_public":             C32_public,
	"C33_authorize":          C33_authorize,
	"C33_bearers":            C33_bearers,
	"C33_faults":             C33_faults,
	"C33_mixed":              C33_mixed,
	"C33_pending":            C33_pending,
	"C33_resource":           C33_resource,
	"C33_secrets":            C33_secrets,
	"C33_token":              C33_token,
	"C34_cancel":             C34_cancel,
	"C35_again":              C35_again,
	"C35_both":               C35_both,
	"C35_front":              C35_front,
	"C35_redeem":             C35_redeem,
	"C35_refresh":            C35_refresh,
	"C35_two":                C35_two,
	"C36_assertion":          C36_assertion,
	"C36_authorize":          C36_authorize,
	"C36_complete":           C36_complete,
	"C36_credentials":        C36_credentials,
	"C36_grants":             C36_grants,
	"C36_id_token":           C36_id_token,
	"C37_authorize":          C37_authorize,
	"C37_credentials":        C37_credentials,
	"C37_grants":             C37_grants,
	"C37_resource":           C37_resource,
	"C38_authorize":          C38_authorize,
	"C38_client":             C38_client,
	"C38_pending":            C38_pending,
	"C38_resource":           C38_resource,
	"C38_token":              C38_token,
	"C39_entry":              C39_entry,
	"C39_grants":             C39_grants,
	"C39_pending":            C39_pending,
	"C39_request":            C39_request,
	"C39_resource":           C39_resource,
	"C39_token":              C39_token,
	"C40_parameters":         C40_parameters,
	"C41_authorize":          C41_authorize,
	"C41_client":             C41_client,
	"C41_grant":              C41_grant,
	"C41_keys":               C41_keys,
	"C41_mixed":              C41_mixed,
	"C41_pending":            C41_pending,
	"C41_resource":           C41_resource,
	"C42_authorize":          C42_authorize,
	"C42_resource":           C42_resource,
	"C42_token":              C42_token,
	"C43_clock":              C43_clock,
	"C43_policy":             C43_policy,
	"C43_resource":           C43_resource,
	"C43_token":              C43_token,
	"C44_verifier":           C44_verifier,
	"C45_authorize":          C45_authorize,
	"C45_pending":            C45_pending,
	"C45_resource":           C45_resource,
	"C45_token":              C45_token,
	"C46_authorize":          C46_authorize,
	"C46_pending":            C46_pending,
	"C46_resource":           C46_resource,
	"C46_token":              C46_token,
	"C47_client":             C47_client,
	"C47_code":               C47_code,
	"C47_refresh":            C47_refresh,
	"C47_token":              C47_token,
	"C47_user":               C47_user,
	"C48_authorize":          C48_authorize,
	"C48_resource":           C48_resource,
	"C48_token":              C48_token,
}
