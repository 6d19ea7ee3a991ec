package check

import (
	"github.com/hashicorp/go-multierror"

	"github.com/breml/logstash-config/internal/vc"
	"github.com/breml/logstash-config/internal/vcos"
)

// vcspec_nbad counts the offending paths among the first n.
func vcspec_nbad(w int, args []string, n int) int {
	if n <= 0 {
		return 0
	}
	c := vcspec_nbad(w, args, n-1)
	if vcos.Vcspec_bad(w, args[n-1]) {
		return c + 1
	}
	return c
}

func vcspec_report(w int, es []error, args []string, n int) bool {
	return vc.Forall(0, n, func(k int) bool {
		i := vcspec_nbad(w, args, k)
		return !vcos.Vcspec_bad(w, args[k]) || 0 <= i && i < len(es) && vcos.Vcspec_names(w, es[i], args[k])
	})
}
func vchint_new(result *multierror.Error) bool {
	return vc.New(result) && (result == nil || vc.New(result.Errors))
}
func vchint_none(result *multierror.Error, args []string, ri int) bool {
	return (result == nil) == (vcspec_nbad(vcos.World, args, ri+1) == 0) && vcspec_nbad(vcos.World, args, ri+1) >= 0
}
func vchint_count(result *multierror.Error, args []string, ri int) bool {
	return result == nil || len(result.Errors) == vcspec_nbad(vcos.World, args, ri+1)
}
func vchint_below(args []string, ri int) bool {
	return vc.Forall(0, ri+1, func(k int) bool {
		i := vcspec_nbad(vcos.World, args, k)
		return 0 <= i && (!vcos.Vcspec_bad(vcos.World, args[k]) || i < vcspec_nbad(vcos.World, args, ri+1)) && i <= vcspec_nbad(vcos.World, args, ri+1)
	})
}
func vchint_entries(result *multierror.Error, args []string, ri int) bool {
	if result == nil {
		return true
	}
	return vcspec_report(vcos.World, result.Errors, args, ri+1)
}

//vc:prop C16
//vc:target (internal/app/check.Check).Run
//vc:hints vchint_new vchint_none vchint_count vchint_below vchint_entries
func vccheck_Run(f Check, args []string) {
	w, n := vcos.World, len(args)
	vc.Frame(&vcos.Last, &vcos.At)
	err := f.Run(args)
	vc.Ensures("no file and no other memory is changed", vc.OnlyChanged(&vcos.Last, &vcos.At) && vcos.World == w)
	vc.Ensures("it succeeds exactly if no path offends", (err == nil) == (vcspec_nbad(w, args, n) == 0))
	if err != nil {
		m, ok := err.(*multierror.Error)
		vc.Ensures("the error is the list", ok && m != nil)
		vc.Ensures("one entry per offending path", len(m.Errors) == vcspec_nbad(w, args, n))
		vc.Ensures("in order, with path and reason", vcspec_report(w, m.Errors, args, n))
	}
}
