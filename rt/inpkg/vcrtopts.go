package config

// Helper of the search program: lets it apply options, and the options they
// hand back, to a parser and look at the settings. Overlaid, never committed.

import (
	"fmt"
	"reflect"
	"sort"
)

func init() { VcrtOptions = vcrtOptions }

type vcrtSession struct{ p *parser }

func vcrtOptions(opts ...Option) VcrtSession { return &vcrtSession{newParser("", nil, opts...)} }

func (s *vcrtSession) Apply(o Option) Option { return o(s.p) }

// Snapshot lists the settings by field name.
func (s *vcrtSession) Snapshot() map[string]string {
	out := map[string]string{}
	var walk func(pre string, v reflect.Value, d int)
	walk = func(pre string, v reflect.Value, d int) {
		switch v.Kind() {
		case reflect.Bool:
			out[pre] = fmt.Sprint(v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			out[pre] = fmt.Sprint(v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			out[pre] = fmt.Sprint(v.Uint())
		case reflect.String:
			out[pre] = fmt.Sprintf("%q", v.String())
		case reflect.Ptr:
			out[pre] = fmt.Sprintf("%x", v.Pointer())
		case reflect.Struct:
			if d > 2 {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(pre+"."+v.Type().Field(i).Name, v.Field(i), d+1)
			}
		case reflect.Map:
			if v.Type().Key().Kind() != reflect.String {
				return
			}
			var ks []string
			for _, k := range v.MapKeys() {
				e := v.MapIndex(k)
				if e.Kind() == reflect.Interface {
					e = e.Elem()
				}
				// an absent entry and a false one mean the same
				if !e.IsValid() || e.Kind() == reflect.Bool && !e.Bool() {
					continue
				}
				x := e.Kind().String()
				switch e.Kind() {
				case reflect.Bool:
					x = fmt.Sprint(e.Bool())
				case reflect.Int:
					x = fmt.Sprint(e.Int())
				case reflect.String:
					x = fmt.Sprintf("%q", e.String())
				}
				ks = append(ks, k.String()+"="+x)
			}
			sort.Strings(ks)
			out[pre] = fmt.Sprint(ks)
		}
	}
	walk("p", reflect.ValueOf(s.p).Elem(), 0)
	return out
}
