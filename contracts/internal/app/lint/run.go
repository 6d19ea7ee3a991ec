package lint

import (
	"github.com/hashicorp/go-multierror"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	"github.com/breml/logstash-config/internal/vc"
	"github.com/breml/logstash-config/internal/vcos"
)

// ---- lint as a whole. The walk over the plugins stands for any number of calls
// of the callback, each with a cursor on some plugin (that it visits each plugin
// once is not said here).

//vc:body ast/astutil.ApplyPlugins
func vcbody_ApplyPlugins(root []ast.BranchOrPlugin, f astutil.ApplyPluginsFunc) []ast.BranchOrPlugin {
	v := vc.Receiver[*validator](f)
	if vc.Method(f, "walk") {
		anyWalks(v)
	} else {
		vc.Assert("the walks are those of walk and collectIDs", vc.Method(f, "collectIDs"))
		anyCollects(v)
	}
	return vc.Any[[]ast.BranchOrPlugin]("result")
}

// anyWalks: any number of calls of walk.
func anyWalks(v *validator) {
	for vc.Any[bool]("another") {
		c := vc.Any[*astutil.Cursor]("cursor")
		vc.Assume(vcspec_onPlugin(c))
		v.walk(c)
	}
}

// anyCollects: any number of calls of collectIDs.
func anyCollects(v *validator) {
	for vc.Any[bool]("another") {
		c := vc.Any[*astutil.Cursor]("cursor")
		vc.Assume(vcspec_onPlugin(c))
		v.collectIDs(c)
	}
}

// vcspec_valid: a validator walk can work with.
func vcspec_valid(v *validator) bool {
	return v != nil && v.usedIDs != nil && v.allIDs != nil && vc.Apart(v.usedIDs, v.allIDs) && vc.Apart(vc.Arr(v.noIDs), vc.Arr(v.duplicateIDs))
}

func vchint_valid(v *validator) bool { return vcspec_valid(v) }
func vchint_arrays(v *validator, none, dup []string) bool {
	return (vc.New(v.noIDs) || vc.SameArr(v.noIDs, none)) && (vc.New(v.duplicateIDs) || vc.SameArr(v.duplicateIDs, dup))
}
func vchint_unchanged(v *validator, changed bool) bool { return v.autoFixID || v.changed == changed }

//vc:prop C17 C18
//vc:target internal/app/lint.anyWalks
//vc:use (*internal/app/lint.validator).walk
//vc:hints vchint_valid vchint_arrays vchint_unchanged
func vccheck_anyWalks(v *validator) {
	vc.Requires(vcspec_valid(v))
	none, dup, changed := v.noIDs, v.duplicateIDs, v.changed
	vc.Ghost("none", none)
	vc.Ghost("dup", dup)
	vc.Ghost("changed", changed)
	arrNone, arrDup := vc.Arr(v.noIDs), vc.Arr(v.duplicateIDs)
	vc.Frame(&v.count, &v.changed, &v.noIDs, &v.duplicateIDs, v.usedIDs, v.allIDs, arrNone, arrDup, []ast.BranchOrPlugin(nil), []ast.Attribute(nil))
	anyWalks(v)
	vc.Ensures("only the validator, the lists and the attributes are changed", vc.OnlyChanged(&v.count, &v.changed, &v.noIDs, &v.duplicateIDs, v.usedIDs, v.allIDs, arrNone, arrDup, []ast.BranchOrPlugin(nil), []ast.Attribute(nil)))
	vc.Ensures("the validator works on", vcspec_valid(v) && (vc.New(v.noIDs) || vc.SameArr(v.noIDs, none)) && (vc.New(v.duplicateIDs) || vc.SameArr(v.duplicateIDs, dup)))
	vc.Ensures("without auto-fix there is nothing to write", v.autoFixID || v.changed == changed)
}

//vc:prop C17 C18
//vc:target internal/app/lint.anyCollects
//vc:use (*internal/app/lint.validator).collectIDs
func vccheck_anyCollects(v *validator) {
	vc.Requires(v != nil && v.usedIDs != nil)
	vc.Frame(v.usedIDs)
	anyCollects(v)
	vc.Ensures("only the used ids are changed", vc.OnlyChanged(v.usedIDs))
}

// vcspec_offends: lint has something to report, whatever its plugins are.
func vcspec_offends(w int, name string) bool {
	return vcos.Vcspec_bad(w, name) || !vcos.Vcuf_isdir(w, name) && vcos.Vcuf_warned(vcos.Vcuf_content(w, name))
}

func vcspec_distinct(args []string) bool {
	return vc.Forall(0, len(args), func(k int) bool { return vc.Forall(0, k, func(j int) bool { return args[j] != args[k] }) })
}
func vcspec_among(s string, args []string, n int) bool {
	return vc.Exists(0, n, func(k int) bool { return args[k] == s })
}

// vcspec_others: all but the first n paths are as they were.
func vcspec_others(w, now int, args []string, n int) bool {
	return vc.ForallStr(func(s string) bool {
		return vcspec_among(s, args, n) || vcos.Vcuf_content(now, s) == vcos.Vcuf_content(w, s)
	})
}

// vcspec_untouched: of the first n paths, those that are no configuration are as they were.
func vcspec_untouched(w, now int, args []string, n int) bool {
	return vc.Forall(0, n, func(k int) bool {
		return !vcos.Vcspec_bad(w, args[k]) && !vcos.Vcuf_isdir(w, args[k]) || vcos.Vcuf_content(now, args[k]) == vcos.Vcuf_content(w, args[k])
	})
}

func vchint_made(v validator) bool {
	return v.usedIDs != nil && v.allIDs != nil && vc.Apart(v.usedIDs, v.allIDs) && vc.Apart(vc.Arr(v.noIDs), vc.Arr(v.duplicateIDs)) &&
		vc.New(v.noIDs) && vc.New(v.duplicateIDs) && vc.New(v.usedIDs) && vc.New(v.allIDs)
}
func vchint_fix(l Lint, v validator) bool {
	return v.autoFixID == l.autoFixID && (l.autoFixID || !v.changed)
}
func vchint_pos(ri int) bool                            { return ri >= -1 }
func vchint_some(result *multierror.Error, ri int) bool { return ri < 0 || result != nil }
func vchint_new(result *multierror.Error) bool {
	return vc.New(result) && (result == nil || vc.New(result.Errors))
}
func vchint_kinds(w int) bool { return vcos.Vcspec_kinds(w, vcos.World) }
func vchint_kept(w int, l Lint) bool {
	return l.autoFixID || vcos.Vcspec_files(w, vcos.World) && !vcos.Failed
}
func vchint_others(w int, args []string, ro int) bool {
	return vcspec_others(w, vcos.World, args, ro+1)
}
func vchint_reported(w int, distinct bool, result *multierror.Error, args []string, ro int) bool {
	return !distinct || result != nil || vc.Forall(0, ro+1, func(k int) bool { return !vcspec_offends(w, args[k]) })
}
func vchint_untouched(w int, distinct bool, args []string, ro int) bool {
	return !distinct || vcspec_untouched(w, vcos.World, args, ro+1)
}
func vchint_failed(result *multierror.Error) bool { return !vcos.Failed || result != nil }
func vchint_out(w int) bool                       { return vcos.Vcuf_out(vcos.World) == vcos.Vcuf_out(w) }

//vc:prop C17 C18
//vc:target (internal/app/lint.Lint).Run
//vc:use internal/app/lint.anyWalks internal/app/lint.anyCollects
//vc:nested
//vc:hints vchint_pos vchint_made vchint_fix vchint_some vchint_new vchint_kinds vchint_kept vchint_others vchint_reported vchint_untouched vchint_failed vchint_out
func vccheck_Run(l Lint, args []string) {
	w, n := vcos.World, len(args)
	distinct := vcspec_distinct(args)
	vc.Requires(!vcos.Failed)
	vc.Ghost("w", w)
	vc.Ghost("distinct", distinct)
	vc.Frame(&vcos.Last, &vcos.At, &vcos.World, &vcos.Failed, []ast.BranchOrPlugin(nil), []ast.Attribute(nil))
	err := l.Run(args)
	vc.Ensures("only the attributes read are changed", vc.OnlyChanged(&vcos.Last, &vcos.At, &vcos.World, &vcos.Failed, []ast.BranchOrPlugin(nil), []ast.Attribute(nil)))
	now := vcos.World
	vc.Ensures("nothing is printed", vcos.Vcuf_out(now) == vcos.Vcuf_out(w))
	vc.Ensures("without auto-fix no file is written", l.autoFixID || vcos.Vcspec_files(w, now) && !vcos.Failed)
	vc.Ensures("only the files named are written", vcspec_others(w, now, args, n) && vcos.Vcspec_kinds(w, now))
	vc.Ensures("a failed write is reported", !vcos.Failed || err != nil)
	if distinct {
		vc.Ensures("directories and files that are no configuration are not written", vcspec_untouched(w, now, args, n))
		vc.Ensures("success means that no file is bad and none has a comment in an exceptional place", err != nil || vc.Forall(0, n, func(k int) bool { return !vcspec_offends(w, args[k]) }))
	}
}
