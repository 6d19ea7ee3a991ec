package format

import (
	"io"

	"github.com/breml/logstash-config/internal/vc"
	"github.com/breml/logstash-config/internal/vcos"
)

// vcspec_stop is the index of the first offending path among the first n, or n.
func vcspec_stop(w int, args []string, n int) int {
	if n <= 0 {
		return 0
	}
	s := vcspec_stop(w, args, n-1)
	if s < n-1 {
		return s
	}
	if vcos.Vcspec_bad(w, args[n-1]) {
		return n - 1
	}
	return n
}

func vcspec_none(w int, args []string, n int) bool {
	return vc.Forall(0, n, func(k int) bool { return !vcos.Vcspec_bad(w, args[k]) })
}

//vc:prop C19
func vclemma_stop(w int, args []string, n int) {
	vc.Requires(0 <= n && n <= len(args))
	vc.Decreases(n)
	if n > 0 {
		vclemma_stop(w, args, n-1)
	}
	vc.Ensures("within", 0 <= vcspec_stop(w, args, n) && vcspec_stop(w, args, n) <= n)
	vc.Ensures("none", vc.Implies(vcspec_none(w, args, n), vcspec_stop(w, args, n) == n))
	vc.Ensures("first", vc.Forall(0, n, func(m int) bool {
		return !vcos.Vcspec_bad(w, args[m]) || !vcspec_none(w, args, m) || vcspec_stop(w, args, n) == m
	}))
}

// vcspec_printed is what the first n paths print.
func vcspec_printed(w int, to io.Writer, args []string, n int) string {
	if n <= 0 {
		return ""
	}
	p := vcspec_printed(w, to, args, n-1)
	if vcos.Vcuf_isdir(w, args[n-1]) {
		return p
	}
	return p + vcos.Vcuf_entry(to, vcos.Vcuf_format(vcos.Vcuf_content(w, args[n-1])))
}
func vcspec_distinct(args []string) bool {
	return vc.Forall(0, len(args), func(k int) bool { return vc.Forall(0, k, func(j int) bool { return args[j] != args[k] }) })
}
func vcspec_among(s string, args []string, n int) bool {
	return vc.Exists(0, n, func(k int) bool { return args[k] == s })
}

// vcspec_others: all but the first n paths are as they were.
func vcspec_others(w, now int, args []string, n int) bool {
	return vc.ForallStr(func(s string) bool {
		return vcspec_among(s, args, n) || vcos.Vcuf_content(now, s) == vcos.Vcuf_content(w, s)
	})
}

// vcspec_rewritten: the first n paths hold the printed form of what they held, directories are skipped.
func vcspec_rewritten(w, now int, args []string, n int) bool {
	return vc.Forall(0, n, func(k int) bool {
		if vcos.Vcuf_isdir(w, args[k]) {
			return vcos.Vcuf_content(now, args[k]) == vcos.Vcuf_content(w, args[k])
		}
		return vcos.Vcuf_content(now, args[k]) == vcos.Vcuf_format(vcos.Vcuf_content(w, args[k]))
	})
}

func vchint_kinds(w int) bool { return vcos.Vcspec_kinds(w, vcos.World) && !vcos.Failed }
func vchint_pos(ri int) bool  { return ri >= -1 }
func vchint_others(w int, args []string, ri int) bool {
	return vcspec_others(w, vcos.World, args, ri+1)
}
func vchint_stop(w int, distinct bool, f Format, args []string, ri int) bool {
	return f.writeToSource && !distinct || vcspec_none(w, args, ri+1)
}
func vchint_out(w int, f Format, args []string, ri int) bool {
	if f.writeToSource {
		return vcos.Vcuf_out(vcos.World) == vcos.Vcuf_out(w)
	}
	return vcos.Vcuf_out(vcos.World) == vcos.Vcuf_out(w)+vcspec_printed(w, f.out, args, ri+1)
}
func vchint_kept(w int, f Format) bool {
	return f.writeToSource || vc.ForallStr(func(s string) bool { return vcos.Vcuf_content(vcos.World, s) == vcos.Vcuf_content(w, s) })
}
func vchint_rewritten(w int, distinct bool, f Format, args []string, ri int) bool {
	return !f.writeToSource || !distinct || vcspec_rewritten(w, vcos.World, args, ri+1)
}

//vc:prop C19
//vc:target (internal/app/format.Format).Run
//vc:hints vchint_pos vchint_kinds vchint_kept vchint_others vchint_stop vchint_out vchint_rewritten
func vccheck_Run(f Format, args []string) {
	w, n := vcos.World, len(args)
	distinct := vcspec_distinct(args)
	vc.Requires(!vcos.Failed)
	vc.Ghost("w", w)
	vc.Ghost("distinct", distinct)
	vc.Frame(&vcos.Last, &vcos.At, &vcos.World, &vcos.Failed)
	err := f.Run(args)
	vc.Ensures("no other memory is changed", vc.OnlyChanged(&vcos.Last, &vcos.At, &vcos.World, &vcos.Failed))
	vclemma_stop(w, args, n)
	now, stop := vcos.World, vcspec_stop(w, args, n)
	vc.Ensures("only the files named are changed", vcspec_others(w, now, args, n) && vcos.Vcspec_kinds(w, now))
	if !f.writeToSource {
		vc.Ensures("no file is touched", !vcos.Failed && vc.ForallStr(func(s string) bool { return vcos.Vcuf_content(now, s) == vcos.Vcuf_content(w, s) }))
		vc.Ensures("the printed forms, in order, up to the first offending path", vcos.Vcuf_out(now) == vcos.Vcuf_out(w)+vcspec_printed(w, f.out, args, stop))
	} else {
		vc.Ensures("nothing is printed", vcos.Vcuf_out(now) == vcos.Vcuf_out(w))
	}
	if vcos.Failed {
		vc.Ensures("a failed write is reported", err != nil)
	} else if !f.writeToSource || distinct {
		vc.Ensures("it succeeds exactly if no path offends", (err == nil) == (stop == n))
		vc.Ensures("the first offending path is as it was", stop >= n || vcos.Vcuf_content(now, args[stop]) == vcos.Vcuf_content(w, args[stop]))
		if err != nil && stop < n {
			x := args[stop]
			vc.Assert("its reason is as it was", vcos.Vcspec_reason(now, x) == vcos.Vcspec_reason(w, x) && vcos.Vcuf_staterr(now, x) == vcos.Vcuf_staterr(w, x) && vcos.Vcuf_exists(now, x) == vcos.Vcuf_exists(w, x))
			vc.Assert("it is the path asked about last", x == vcos.At)
			vc.Assert("named as things stand now", vcos.Vcspec_names(now, err, vcos.At))
		}
		vc.Ensures("the error names the first offending path", err == nil || stop < n && vcos.Vcspec_names(w, err, args[stop]))
		if f.writeToSource {
			vc.Ensures("the files before it hold their printed form", vcspec_rewritten(w, now, args, stop))
			vc.Ensures("it and the later ones are as they were", vcspec_others(w, now, args, stop))
		}
	}
}
