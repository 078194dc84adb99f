// Code generated by gen_registry.sh. DO NOT EDIT.

package h

// Registry maps harness names to functions.
var Registry = map[string]func(){
	"C01_adjacent":        C01_adjacent,
	"C01_builders":        C01_builders,
	"C01_deep":            C01_deep,
	"C01_join":            C01_join,
	"C01_mixed":           C01_mixed,
	"C01_sizes":           C01_sizes,
	"C01_wide":            C01_wide,
	"C02_commit":          C02_commit,
	"C02_deep":            C02_deep,
	"C02_join":            C02_join,
	"C02_kinds":           C02_kinds,
	"C02_long":            C02_long,
	"C02_mixed":           C02_mixed,
	"C02_sizes":           C02_sizes,
	"C02_twins":           C02_twins,
	"C02_wide":            C02_wide,
	"C03_any_bytes":       C03_any_bytes,
	"C03_built":           C03_built,
	"C03_built_quoted":    C03_built_quoted,
	"C03_long":            C03_long,
	"C03_mixed":           C03_mixed,
	"C03_quotes":          C03_quotes,
	"C04_any_bytes":       C04_any_bytes,
	"C04_call_any_bytes":  C04_call_any_bytes,
	"C04_call_args":       C04_call_args,
	"C04_call_keywords":   C04_call_keywords,
	"C04_call_numbers":    C04_call_numbers,
	"C04_call_wellformed": C04_call_wellformed,
	"C04_indexes":         C04_indexes,
	"C04_long":            C04_long,
	"C04_marks":           C04_marks,
	"C05_any_bytes":       C05_any_bytes,
	"C05_calls":           C05_calls,
	"C05_far":             C05_far,
	"C05_lines":           C05_lines,
	"C05_long":            C05_long,
	"C06_any_bytes":       C06_any_bytes,
	"C06_build":           C06_build,
	"C06_many":            C06_many,
	"C06_marks":           C06_marks,
	"C06_sequences":       C06_sequences,
	"C07_again":           C07_again,
	"C07_join":            C07_join,
	"C07_mixed":           C07_mixed,
	"C07_nested":          C07_nested,
	"C07_question":        C07_question,
	"C07_refs":            C07_refs,
	"C07_sizes":           C07_sizes,
	"C08_calls":           C08_calls,
	"C08_large":           C08_large,
	"C08_marks":           C08_marks,
	"C08_mixed":           C08_mixed,
	"C08_numbers":         C08_numbers,
	"C08_parse":           C08_parse,
	"C08_raw":             C08_raw,
	"C08_templates":       C08_templates,
	"C08_values":          C08_values,
	"C09_empty":           C09_empty,
	"C09_functions":       C09_functions,
	"C09_large":           C09_large,
	"C09_mixed":           C09_mixed,
	"C09_range":           C09_range,
	"C09_sizes":           C09_sizes,
	"C09_text":            C09_text,
	"C10_functions":       C10_functions,
	"C10_nested":          C10_nested,
	"C10_schedule":        C10_schedule,
	"C10_sqlb":            C10_sqlb,
	"C10_wide":            C10_wide,
	"C11_affixes":         C11_affixes,
	"C11_builders":        C11_builders,
	"C11_chain":           C11_chain,
	"C11_deep":            C11_deep,
	"C11_index":           C11_index,
	"C11_mixed":           C11_mixed,
	"C11_trim":            C11_trim,
	"C12_concurrent":      C12_concurrent,
	"C12_helpers":         C12_helpers,
	"C12_join":            C12_join,
	"C12_mixed":           C12_mixed,
	"C12_refs":            C12_refs,
	"C13_builds":          C13_builds,
	"C13_failed":          C13_failed,
	"C13_many":            C13_many,
	"C13_mixed":           C13_mixed,
	"C14_large":           C14_large,
	"C14_names":           C14_names,
	"C14_order":           C14_order,
	"C14_signatures":      C14_signatures,
	"C15_chain":           C15_chain,
	"C15_context":         C15_context,
	"C15_floats":          C15_floats,
	"C15_kinds":           C15_kinds,
	"C15_limits":          C15_limits,
	"C15_long":            C15_long,
	"C15_many":            C15_many,
	"C15_numbers":         C15_numbers,
	"C15_params":          C15_params,
	"C15_siblings":        C15_siblings,
	"C15_strings":         C15_strings,
	"C15_uncalled":        C15_uncalled,
	"C16_constructors":    C16_constructors,
	"C16_large":           C16_large,
	"C16_setters":         C16_setters,
	"C17_clauses":         C17_clauses,
	"C17_joins":           C17_joins,
	"C17_limits":          C17_limits,
	"C17_mixed":           C17_mixed,
	"C17_names":           C17_names,
	"C17_orders":          C17_orders,
	"C17_rejoins":         C17_rejoins,
	"C17_sizes":           C17_sizes,
	"C17_slices":          C17_slices,
	"C17_where2":          C17_where2,
	"C18_clauses":         C18_clauses,
	"C18_in":              C18_in,
	"C18_many":            C18_many,
	"C18_mixed":           C18_mixed,
	"C18_nested":          C18_nested,
	"C19_counts":          C19_counts,
	"C19_deep":            C19_deep,
	"C19_graph":           C19_graph,
	"C19_mixed":           C19_mixed,
	"C19_names":           C19_names,
	"C19_places":          C19_places,
	"C19_rejoin":          C19_rejoin,
	"C19_sizes":           C19_sizes,
	"C19_trees":           C19_trees,
	"C20_deps":            C20_deps,
	"C20_joins":           C20_joins,
	"C20_mixed":           C20_mixed,
	"C20_names":           C20_names,
	"C20_nested":          C20_nested,
	"C20_sizes":           C20_sizes,
	"C21_calls":           C21_calls,
	"C21_later":           C21_later,
	"C21_long":            C21_long,
	"C21_misuse":          C21_misuse,
	"C21_mixed":           C21_mixed,
	"C21_names":           C21_names,
	"C21_nil":             C21_nil,
	"C22_inputs":          C22_inputs,
	"C22_mix":             C22_mix,
	"C22_sizes":           C22_sizes,
	"C23_index":           C23_index,
	"C23_ints":            C23_ints,
	"C23_kinds":           C23_kinds,
	"C23_long":            C23_long,
	"C23_strings":         C23_strings,
	"C23_text":            C23_text,
	"C24_faults":          C24_faults,
	"C24_many":            C24_many,
	"C24_values":          C24_values,
	"C25_builders":        C25_builders,
	"C25_count":           C25_count,
	"C25_long":            C25_long,
	"C25_norows":          C25_norows,
	"C25_real":            C25_real,
	"C26_depends":         C26_depends,
	"C26_exprs":           C26_exprs,
	"C26_large":           C26_large,
	"C26_lists":           C26_lists,
	"C26_marks":           C26_marks,
	"C26_names":           C26_names,
	"C26_trees":           C26_trees,
	"C27_floats":          C27_floats,
	"C27_times":           C27_times,
	"C27_zero":            C27_zero,
	"C29_any_bytes":       C29_any_bytes,
	"C29_marks":           C29_marks,
	"C29_mixed":           C29_mixed,
	"C29_queries":         C29_queries,
	"C29_sizes":           C29_sizes,
	"C29_templates":       C29_templates,
	"C30_build":           C30_build,
	"C30_large":           C30_large,
	"C30_shared":          C30_shared,
	"C31_calls":           C31_calls,
	"C31_more":            C31_more,
	"C31_tables":          C31_tables,
	"C32_calls":           C32_calls,
	"C32_lists":           C32_lists,
	"C32_made":            C32_made,
	"C32_refs":            C32_refs,
	"C32_run":             C32_run,
}
