package scen

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"

	"vsim/sim"
)

// The harness has its own reading of the record schema (struct tags), so
// that the codec under test is not its own oracle.

type recType struct {
	code int
	name string
	t    reflect.Type
}

var recTypes []recType

func init() {
	encoding.MustRegisterRecord(labelCode, labelRecord{})
	for i, r := range []any{
		vanflow.SiteRecord{}, vanflow.RouterRecord{}, vanflow.LinkRecord{}, vanflow.ControllerRecord{},
		vanflow.ListenerRecord{}, vanflow.ConnectorRecord{}, vanflow.FlowRecord{}, vanflow.ProcessRecord{},
		vanflow.ImageRecord{}, vanflow.IngressRecord{}, vanflow.EgressRecord{}, vanflow.CollectorRecord{},
		vanflow.ProcessGroupRecord{}, vanflow.HostRecord{}, vanflow.LogRecord{},
	} {
		if _, ok := r.(vanflow.Record); !ok {
			continue
		}
		t := reflect.TypeOf(r)
		recTypes = append(recTypes, recType{i, t.Name(), t})
	}
}

// labelRecord is a record type of an application's own, which has an attribute
// whose values cannot be compared.
type labelRecord struct {
	vanflow.BaseRecord
	Name   *string `vflow:"2"`
	Labels labels  `vflow:"30"`
	Count  *uint64 `vflow:"31"`
	Others labels  `vflow:"32"`
}

const labelCode = 900

var labelType = recType{labelCode, "labelRecord", reflect.TypeOf(labelRecord{})}

func (labelRecord) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "vsim", Type: "labelRecord"}
}

type labels []string

func (l labels) EncodeRecordAttribute() (any, error) {
	if len(l) == 0 {
		return nil, encoding.ErrAttributeNotSet
	}
	var out []any
	for _, s := range l {
		out = append(out, s)
	}
	return out, nil
}

func (l *labels) DecodeRecordAttribute(attr any) error {
	list, ok := attr.([]any)
	if !ok {
		return fmt.Errorf("not a list: %T", attr)
	}
	var out labels
	for _, x := range list {
		s, ok := x.(string)
		if !ok {
			return fmt.Errorf("not a string: %T", x)
		}
		out = append(out, s)
	}
	*l = out
	return nil
}

func typeByCode(code int) (recType, bool) {
	if code == labelCode {
		return labelType, true
	}
	for _, t := range recTypes {
		if t.code == code {
			return t, true
		}
	}
	return recType{}, false
}

func typeCode(t reflect.Type) int {
	if t == labelType.t {
		return labelCode
	}
	for _, rt := range recTypes {
		if rt.t == t {
			return rt.code
		}
	}
	return -1
}

type recField struct {
	code  int
	index []int
	kind  string // s string, u uint64, i int64, t time, l labels
	ptr   bool
}

var fieldCache = map[reflect.Type][]recField{}

func fieldsOf(t reflect.Type) []recField {
	if f, ok := fieldCache[t]; ok {
		return f
	}
	var out []recField
	for _, f := range reflect.VisibleFields(t) {
		tag, ok := f.Tag.Lookup("vflow")
		if !ok || f.Anonymous {
			continue
		}
		num, _, _ := strings.Cut(tag, ",")
		c, err := strconv.Atoi(num)
		if err != nil || c == 1 {
			continue
		}
		ft, isPtr := f.Type, false
		if ft.Kind() == reflect.Pointer {
			ft, isPtr = ft.Elem(), true
		}
		k := ""
		switch {
		case ft == reflect.TypeOf(vanflow.Time{}):
			k = "t"
		case ft == reflect.TypeOf(labels{}):
			k = "l"
		case ft.Kind() == reflect.String:
			k = "s"
		case ft.Kind() == reflect.Uint64:
			k = "u"
		case ft.Kind() == reflect.Int64:
			k = "i"
		case ft.Kind() == reflect.Uint32:
			k = "U"
		case ft.Kind() == reflect.Int32:
			k = "I"
		default:
			continue
		}
		out = append(out, recField{c, f.Index, k, isPtr})
	}
	fieldCache[t] = out
	return out
}

// attrs is a record as the harness sees it.
type attrs map[int]string

func (a attrs) String() string {
	keys := make([]string, 0, len(a))
	for k, v := range a {
		keys = append(keys, strconv.Itoa(k)+"="+v)
	}
	sort.Strings(keys)
	return strings.Join(keys, ";")
}

// attrsOf reads a record.
func attrsOf(r any) (attrs, bool) {
	v := reflect.ValueOf(r)
	if !v.IsValid() {
		return nil, false
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil, false
		}
		v = v.Elem()
	}
	code := typeCode(v.Type())
	if code < 0 {
		return nil, false
	}
	a := attrs{0: strconv.Itoa(code), 1: v.FieldByName("ID").String()}
	for _, f := range fieldsOf(v.Type()) {
		fv := v.FieldByIndex(f.index)
		if fv.Kind() == reflect.Pointer {
			if fv.IsNil() {
				continue
			}
			fv = fv.Elem()
		}
		switch f.kind {
		case "t":
			t := fv.Interface().(vanflow.Time)
			if t.IsZero() {
				continue
			}
			a[f.code] = strconv.FormatInt(t.UnixMicro(), 10)
		case "l":
			if fv.Len() > 0 {
				a[f.code] = fmt.Sprint(fv.Interface())
			}
		case "s":
			a[f.code] = fv.String()
		case "u", "U":
			a[f.code] = strconv.FormatUint(fv.Uint(), 10)
		case "i", "I":
			a[f.code] = strconv.FormatInt(fv.Int(), 10)
		}
	}
	return a, true
}

// recordOf builds a record from its attributes.
func recordOf(a attrs) vanflow.Record {
	code, _ := strconv.Atoi(a[0])
	rt, ok := typeByCode(code)
	if !ok {
		return nil
	}
	p := reflect.New(rt.t)
	v := p.Elem()
	v.FieldByName("ID").SetString(a[1])
	for _, f := range fieldsOf(rt.t) {
		s, ok := a[f.code]
		if !ok {
			continue
		}
		fv := v.FieldByIndex(f.index)
		if fv.Kind() == reflect.Pointer {
			fv.Set(reflect.New(fv.Type().Elem()))
			fv = fv.Elem()
		}
		switch f.kind {
		case "t":
			n, _ := strconv.ParseInt(s, 10, 64)
			fv.Set(reflect.ValueOf(vanflow.Time{Time: time.UnixMicro(n)}))
		case "l":
			fv.Set(reflect.ValueOf(labels(strings.Fields(strings.Trim(s, "[]")))))
		case "s":
			fv.SetString(s)
		case "u", "U":
			n, _ := strconv.ParseUint(s, 10, 64)
			fv.SetUint(n)
		case "i", "I":
			n, _ := strconv.ParseInt(s, 10, 64)
			fv.SetInt(n)
		}
	}
	return p.Interface().(vanflow.Record)
}

// parseAttrs reads the form attrs.String writes.
func parseAttrs(s string) attrs {
	a := attrs{}
	if s == "" {
		return a
	}
	for _, kv := range strings.Split(s, ";") {
		k, v, ok := strings.Cut(kv, "=")
		if !ok {
			continue
		}
		n, err := strconv.Atoi(k)
		if err == nil {
			a[n] = v
		}
	}
	return a
}

// genAttrs draws a partial record; uniq makes its values recognisable.
func genAttrs(r *sim.RNG, code int, id string, uniq int, pct int) attrs {
	rt, _ := typeByCode(code)
	a := attrs{0: strconv.Itoa(code), 1: id}
	for _, f := range fieldsOf(rt.t) {
		if !r.P(pct) {
			continue
		}
		a[f.code] = genValue(r, f.kind, uniq)
	}
	return a
}

func genValue(r *sim.RNG, kind string, uniq int) string {
	switch kind {
	case "t":
		return fmt.Sprint(946684800000000 + int64(uniq)*1000 + int64(r.N(1000)))
	case "l":
		return sim.Pick(r, "[l]", "[l m]", "[m l]", fmt.Sprintf("[l v%d]", uniq), fmt.Sprintf("[v%d]", uniq))
	case "s":
		if r.P(4) {
			return sim.Pick(r, "", "é\u0000x", strings.Repeat("z", 300))
		}
		return fmt.Sprintf("v%d", uniq)
	default:
		if r.P(8) {
			return sim.Pick(r, "0", "255", "256", "4294967295", "1")
		}
		return fmt.Sprint(uniq)
	}
}

func mergeAttrs(cur, part attrs) attrs {
	out := attrs{}
	for k, v := range cur {
		out[k] = v
	}
	for k, v := range part {
		out[k] = v
	}
	return out
}

// randType returns a random record type code.
func randType(r *sim.RNG) int { return recTypes[r.N(len(recTypes))].code }

// randAnyType may also return the application's own.
func randAnyType(r *sim.RNG) int {
	if r.P(12) {
		return labelCode
	}
	return randType(r)
}

// idOf reads the identity without calling code under test, which may yield.
func idOf(r vanflow.Record) string {
	a, _ := attrsOf(r)
	return a[1]
}

// attrsOfJSON reads the JSON form of a record.
func attrsOfJSON(typ string, raw []byte) (attrs, bool) {
	for _, rt := range recTypes {
		if rt.name != typ {
			continue
		}
		p := reflect.New(rt.t)
		if err := json.Unmarshal(raw, p.Interface()); err != nil {
			return nil, false
		}
		return attrsOf(p.Interface())
	}
	return nil, false
}
