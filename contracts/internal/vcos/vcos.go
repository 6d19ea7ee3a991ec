// Package vcos says what the commands may assume about the operating system
// and the packages outside this repository. None of it is verified.
package vcos

import (
	"io"
	"os"

	"github.com/hashicorp/go-multierror"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/internal/vc"
)

// World stands for all files and the output.
var World int

// Last is the file parsed last.
var Last string

// At is the path asked about last.
var At string

// Failed: the operating system refused to create or to write a file.
var Failed bool

func Vcuf_exists(w int, name string) bool         { return false } // there is something at this path
func Vcuf_isdir(w int, name string) bool          { return false }
func Vcuf_readable(w int, name string) bool       { return false }
func Vcuf_content(w int, name string) string      { return "" }
func Vcuf_staterr(w int, name string) string      { return "" }
func Vcuf_parses(content string) bool             { return false } // the language
func Vcuf_warned(content string) bool             { return false } // a comment in an exceptional place
func Vcuf_openerr(w int, name string) string      { return "" }
func Vcuf_parseerr(name, content string) string   { return "" }
func Vcuf_farthest(content string) string         { return "" } // what the parser expected there
func Vcuf_format(content string) string           { return "" } // the printed form of a configuration
func Vcuf_text(c ast.Config) string               { return "" } // what printing a configuration gives
func Vcuf_out(w int) string                       { return "" } // all that was written to any output
func Vcuf_entry(to io.Writer, text string) string { return "" } // this text, written there
func Vcuf_wrote(text string) bool                 { return true }
func Vcuf_infoIsDir(fi os.FileInfo) bool          { return false }
func Vcuf_fileName(f *os.File) string             { return "" }

//vc:body os.Stat
func vcbody_Stat(name string) (os.FileInfo, error) {
	At = name
	fi, err := vc.Any[os.FileInfo]("info"), vc.Any[error]("err")
	vc.Assume((err == nil) == Vcuf_exists(World, name))
	if err != nil {
		vc.Assume(err.Error() == Vcuf_staterr(World, name))
	} else {
		vc.Assume(fi != nil && Vcuf_infoIsDir(fi) == Vcuf_isdir(World, name))
	}
	return fi, err
}

//vc:body io/fs.FileInfo.IsDir
func vcbody_IsDir(fi os.FileInfo) bool { return Vcuf_infoIsDir(fi) }

//vc:body config.ParseFile
func vcbody_ParseFile(name string, opts ...config.Option) (interface{}, error) {
	Last = name
	c, err := vc.Any[ast.Config]("config"), vc.Any[error]("err")
	vc.Assume((err == nil) == Vcspec_good(World, name))
	if err != nil {
		vc.Assume(err.Error() == Vcspec_reason(World, name))
		return nil, err
	}
	vc.Assume((len(c.Warnings) > 0) == Vcuf_warned(Vcuf_content(World, name)))
	vc.Assume(Vcuf_text(c) == Vcuf_format(Vcuf_content(World, name)))
	return c, nil
}

// Vcspec_good: the file can be read and is a configuration.
func Vcspec_good(w int, name string) bool {
	return Vcuf_readable(w, name) && Vcuf_parses(Vcuf_content(w, name))
}

// Vcspec_reason: why it is not good.
func Vcspec_reason(w int, name string) string {
	if !Vcuf_readable(w, name) {
		return Vcuf_openerr(w, name)
	}
	return Vcuf_parseerr(name, Vcuf_content(w, name))
}

// Vcspec_bad: neither a directory nor a good file.
func Vcspec_bad(w int, name string) bool {
	return !Vcuf_exists(w, name) || !Vcuf_isdir(w, name) && !Vcspec_good(w, name)
}

//vc:body config.GetFarthestFailure
func vcbody_GetFarthestFailure() (string, bool) {
	return Vcuf_farthest(Vcuf_content(World, Last)), vc.Any[bool]("has")
}

//vc:body github.com/hashicorp/go-multierror.Append
func vcbody_Append(err error, errs ...error) *multierror.Error {
	vc.Assert("one error is appended at a time", len(errs) == 1)
	e := errs[0]
	_, many := e.(*multierror.Error)
	vc.Assert("a single error is appended", e != nil && !many)
	m, ok := err.(*multierror.Error)
	vc.Assert("appended to a list of errors", ok)
	if m == nil {
		m = &multierror.Error{}
	}
	m.Errors = append(m.Errors, e)
	return m
}

// Vcspec_names: the error names the path and gives the reason.
func Vcspec_names(w int, e error, name string) bool {
	if !Vcuf_exists(w, name) {
		return e != nil && e.Error() == name+": "+Vcuf_staterr(w, name)
	}
	why := Vcspec_reason(w, name)
	more := why + "\n" + Vcuf_farthest(Vcuf_content(w, name))
	return e != nil && (e.Error() == name+": "+why || e.Error() == name+": "+more || e.Error() == name+": "+name+": "+more)
}

// Vcspec_next: n is w, apart from the content of one file.
func Vcspec_next(w, n int, name string) bool {
	return Vcspec_kinds(w, n) && vc.ForallStr(func(s string) bool { return s == name || Vcuf_content(n, s) == Vcuf_content(w, s) })
}

// Vcspec_kinds: the same files can be read.
func Vcspec_kinds(w, n int) bool {
	return vc.ForallStr(func(s string) bool { return Vcuf_exists(n, s) == Vcuf_exists(w, s) }) &&
		vc.ForallStr(func(s string) bool { return Vcuf_isdir(n, s) == Vcuf_isdir(w, s) }) &&
		vc.ForallStr(func(s string) bool { return Vcuf_staterr(n, s) == Vcuf_staterr(w, s) }) &&
		vc.ForallStr(func(s string) bool { return Vcuf_openerr(n, s) == Vcuf_openerr(w, s) }) &&
		vc.ForallStr(func(s string) bool { return Vcuf_readable(n, s) == Vcuf_readable(w, s) })
}

// Vcspec_files: the same files hold the same.
func Vcspec_files(w, n int) bool {
	return Vcspec_kinds(w, n) && vc.ForallStr(func(s string) bool { return Vcuf_content(n, s) == Vcuf_content(w, s) })
}

//vc:body os.Create
func vcbody_Create(name string) (*os.File, error) {
	f, err := vc.Any[*os.File]("file"), vc.Any[error]("err")
	if err != nil {
		Failed = true
		return nil, err
	}
	w := World
	World = vc.Any[int]("world")
	vc.Assume(f != nil && Vcuf_fileName(f) == name && Vcspec_next(w, World, name) && Vcuf_content(World, name) == "" && Vcuf_out(World) == Vcuf_out(w))
	return f, nil
}

//vc:body (*os.File).WriteString
func vcbody_WriteString(f *os.File, text string) (int, error) {
	n, err := vc.Any[int]("n"), vc.Any[error]("err")
	name, w := Vcuf_fileName(f), World
	World = vc.Any[int]("world")
	vc.Assume(Vcspec_next(w, World, name) && Vcuf_out(World) == Vcuf_out(w))
	if err != nil {
		Failed = true
		return n, err
	}
	vc.Assume(Vcuf_content(World, name) == Vcuf_content(w, name)+text)
	return n, nil
}

//vc:body (*os.File).Close
func vcbody_Close(f *os.File) error { return vc.Any[error]("err") }

//vc:body (ast.Config).String
func vcbody_String(c ast.Config) string { return Vcuf_text(c) }

//vc:body fmt.Fprint
func vcbody_Fprint(to io.Writer, as ...interface{}) (int, error) {
	vc.Assert("one value is printed", len(as) == 1)
	c, ok := as[0].(ast.Config)
	vc.Assert("the value printed is a configuration", ok)
	w := World
	World = vc.Any[int]("world")
	vc.Assume(Vcspec_files(w, World) && Vcuf_out(World) == Vcuf_out(w)+Vcuf_entry(to, Vcuf_text(c)))
	return vc.Any[int]("n"), vc.Any[error]("err")
}
