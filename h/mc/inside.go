package mc

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/drv"
)

// Inside describes the fields of the line buffer, whatever they are, so that
// states that look the same but are remembered differently are kept apart.
// Records that grow with every key (slices of anything but scalars, cells and
// characters) count with their last elements only, to keep the number of
// states finite.
func Inside(r *drv.Run, last int) string {
	var b strings.Builder
	v := reflect.ValueOf(r.B).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Type == reflect.TypeOf(r.Ed) {
			continue
		}
		inside(&b, v.Field(i), last, 0)
		b.WriteByte('|')
	}
	return b.String()
}

var wholeSlices = map[reflect.Type]bool{
	reflect.TypeOf(readline.Cell{}):              true,
	reflect.TypeOf((*readline.Moji)(nil)).Elem(): true,
}

func inside(b *strings.Builder, v reflect.Value, last, depth int) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int(), ",")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint(), ",")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().Name())
		}
		inside(b, v.Elem(), last, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			inside(b, v.Field(i), last, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			inside(b, v.Index(i), last, depth+1)
		}
	case reflect.Slice:
		from := 0
		if k := v.Type().Elem().Kind(); !wholeSlices[v.Type().Elem()] && v.Len() > last &&
			(k == reflect.Struct || k == reflect.Pointer || k == reflect.Interface || k == reflect.Slice || k == reflect.Map || k == reflect.String) {
			from = v.Len() - last
		}
		b.WriteByte('[')
		for i := from; i < v.Len(); i++ {
			inside(b, v.Index(i), last, depth+1)
		}
		b.WriteByte(']')
	case reflect.Map:
		var es []string
		for it := v.MapRange(); it.Next(); {
			var e strings.Builder
			inside(&e, it.Key(), last, depth+1)
			e.WriteByte('=')
			inside(&e, it.Value(), last, depth+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		fmt.Fprint(b, es)
	}
}
